//! P18: dollar cost averaging, on the real pallet-dca over the stand-in tokens; the market behind the router, the
//! oracles and the block hash are tables in storage that the actions change.
use frame_support::{parameter_types, storage::unhashed, traits::{ConstU128, ConstU32, ConstU8, Contains, Hooks, Nothing}, weights::{Weight, WeightToFee}};
use hydradx_traits::{router::{AmmTradeWeights, AmountInAndOut, AssetPair, PoolType, RouteProvider, RouterT, Trade}, NativePriceOracle, OraclePeriod, PriceOracle};
use orml_traits::{parameter_type_with_key, MultiCurrency, NamedMultiReservableCurrency};
use pallet_dca::{types::{Order, Schedule}, Event, RemainingAmounts, RetriesOnError, ScheduleIdSequencer, ScheduleIdsPerBlock, ScheduleOwnership, Schedules};
use sp_core::{bounded::BoundedVec, H256, U256};
use sp_runtime::{DispatchError, DispatchResult, Permill};
use hydra_dx_math::ema::EmaPrice;
use std::collections::{BTreeMap, BTreeSet};
use world::*;

frame_support::construct_runtime!(pub enum Rt { System: frame_system, Tokens: orml_tokens, Dca: pallet_dca });
world::system!(Rt, ());
parameter_type_with_key! { pub Eds: |a: AssetId| -> Balance { [5, 2, 3][*a as usize] }; }
world::tokens!(Rt, Eds, Nothing, ());
type T = Trade<AssetId>;
type E = DispatchError;
type S = Schedule<u64, AssetId, u64>;
type O = Order<AssetId>;
const RES: [u8; 8] = *b"dcaorder";
const MARKET: u64 = 50;
const TREASURY: u64 = 60;
const MIN_TRADE: u128 = 30;
const BUDGET: u128 = 500;
const FULL: usize = 2;
const RETRIES: u8 = 2;
const SPREAD: u32 = 100_000; // parts per million

// ---- what the market, the oracles and the relay chain say ----
/// value of asset 1 in per cent of its usual two units of asset 0, in the market and in the two oracles
#[derive(Clone, Copy, Debug, PartialEq, codec::Encode, codec::Decode)]
struct Mood { now: u128, last: Option<u128>, short: Option<u128>, native: Option<(u128, u128)>, mode: u8, hash: Option<u64>, xyk: bool }
fn mood() -> Mood { unhashed::get(b":mood").unwrap() }
fn value(a: AssetId, f: u128) -> u128 { [100, 2 * f, 50][a as usize] }
fn ends(r: &[T]) -> (AssetId, AssetId) { (r[0].asset_in, r[r.len() - 1].asset_out) }
/// markets of the second kind give a tenth less
fn cut(r: &[T]) -> u128 { r.iter().fold(100, |c, t| if t.pool == PoolType::XYK { c * 9 / 10 } else { c }) }
fn calc(mode: u8) -> Result<(), E> { match mode { 1 => Err(E::Other("closed")), 5 => Err(E::Other("again")), _ => Ok(()) } }
fn quote_sell(r: &[T], x: u128) -> Result<u128, E> { calc(mood().mode)?; let (a, b) = ends(r); let f = mood().now; Ok(x * value(a, f) * cut(r) / (value(b, f) * 100)) }
fn quote_buy(r: &[T], y: u128) -> Result<u128, E> { calc(mood().mode)?; let (a, b) = ends(r); let f = mood().now; Ok((y * value(b, f) * 100).div_ceil(value(a, f) * cut(r))) }
fn swap(o: RuntimeOrigin, a: AssetId, b: AssetId, x: u128, y: u128) -> DispatchResult {
    let w = frame_system::ensure_signed(o)?;
    let m = mood().mode;
    if m == 2 { return Err(E::Other("closed")) }
    <Tokens as MultiCurrency<u64>>::transfer(a, &w, &MARKET, x)?;
    if m == 3 { return Err(E::Other("again")) }
    <Tokens as MultiCurrency<u64>>::transfer(b, &MARKET, &w, y)?;
    if m == 4 { return Err(E::Other("closed")) }
    Ok(())
}
pub struct Market;
impl RouterT<RuntimeOrigin, AssetId, Balance, T, AmountInAndOut<Balance>> for Market {
    fn sell(o: RuntimeOrigin, a: AssetId, b: AssetId, x: u128, min: u128, r: Vec<T>) -> DispatchResult { if ends(&r) != (a, b) { return Err(E::Other("route")) } let y = quote_sell(&r, x)?; if y < min { return Err(E::Other("limit")) } swap(o, a, b, x, y) }
    fn buy(o: RuntimeOrigin, a: AssetId, b: AssetId, y: u128, max: u128, r: Vec<T>) -> DispatchResult { if ends(&r) != (a, b) { return Err(E::Other("route")) } let x = quote_buy(&r, y)?; if x > max { return Err(E::Other("limit")) } swap(o, a, b, x, y) }
    fn calculate_sell_trade_amounts(r: &[T], x: u128) -> Result<Vec<AmountInAndOut<Balance>>, E> { Ok(chain(r, x, quote_sell(r, x)?)) }
    fn calculate_buy_trade_amounts(r: &[T], y: u128) -> Result<Vec<AmountInAndOut<Balance>>, E> { let mut v = chain(r, quote_buy(r, y)?, y); v.reverse(); Ok(v) }
    fn set_route(_: RuntimeOrigin, _: AssetPair<AssetId>, _: Vec<T>) -> frame_support::dispatch::DispatchResultWithPostInfo { unimplemented!() }
    fn force_insert_route(_: RuntimeOrigin, _: AssetPair<AssetId>, _: Vec<T>) -> frame_support::dispatch::DispatchResultWithPostInfo { unimplemented!() }
}
fn chain(r: &[T], x: u128, y: u128) -> Vec<AmountInAndOut<Balance>> { let n = r.len(); (0..n).map(|i| AmountInAndOut { amount_in: if i == 0 { x } else { 7_777 + i as u128 }, amount_out: if i == n - 1 { y } else { 7_777 + i as u128 + 1 } }).collect() }
pub struct Routes;
impl RouteProvider<AssetId> for Routes { fn get_route(p: AssetPair<AssetId>) -> Vec<T> { vec![Trade { pool: if mood().xyk { PoolType::XYK } else { PoolType::Omnipool }, asset_in: p.asset_in, asset_out: p.asset_out }] } }
/// units of the first asset of the route for one of the last
fn oracle(r: &[T], p: OraclePeriod) -> Option<(u128, u128)> { let f = match p { OraclePeriod::LastBlock => mood().last, OraclePeriod::Short => mood().short, _ => None }?; let (a, b) = ends(r); Some((value(b, f), value(a, f))) }
pub struct Oracle;
impl PriceOracle<AssetId> for Oracle { type Price = EmaPrice; fn price(r: &[T], p: OraclePeriod) -> Option<EmaPrice> { oracle(r, p).map(|(n, d)| EmaPrice { n, d }) } }
pub struct Native;
impl NativePriceOracle<AssetId, EmaPrice> for Native { fn price(a: AssetId) -> Option<EmaPrice> { assert_ne!(a, 0); mood().native.map(|(n, d)| EmaPrice { n, d }) } }
pub struct Again;
impl Contains<E> for Again { fn contains(e: &E) -> bool { *e == E::Other("again") } }
pub struct Hashes;
impl hydradx_adapters::RelayChainBlockHashProvider for Hashes { fn parent_hash() -> Option<H256> { mood().hash.map(|s| { let h = (s ^ System::block_number().wrapping_mul(0x9e37_79b9_7f4a_7c15)).wrapping_mul(0xbf58_476d_1ce4_e5b9); let mut b = [0; 32]; b[..8].copy_from_slice(&h.to_le_bytes()); H256::from(b) }) } }
pub struct Fee;
impl WeightToFee for Fee { type Balance = Balance; fn weight_to_fee(w: &Weight) -> Balance { (w.ref_time() / 100) as u128 } }
fn ref_time(r: &[T], w: u64) -> Weight { Weight::from_parts(w * r.len() as u64, 0) }
pub struct Hops;
impl AmmTradeWeights<T> for Hops {
    fn sell_weight(_: &[T]) -> Weight { unimplemented!() }
    fn buy_weight(_: &[T]) -> Weight { unimplemented!() }
    fn calculate_buy_trade_amounts_weight(_: &[T]) -> Weight { Weight::zero() }
    fn sell_and_calculate_sell_trade_amounts_weight(r: &[T]) -> Weight { ref_time(r, 100) }
    fn buy_and_calculate_buy_trade_amounts_weight(r: &[T]) -> Weight { ref_time(r, 200) }
    fn set_route_weight(_: &[T]) -> Weight { unimplemented!() }
    fn force_insert_route_weight() -> Weight { unimplemented!() }
    fn get_route_weight() -> Weight { unimplemented!() }
    fn calculate_spot_price_with_fee_weight(_: &[T]) -> Weight { unimplemented!() }
}
pub struct Weights;
impl pallet_dca::WeightInfo for Weights {
    fn on_initialize_with_buy_trade() -> Weight { Weight::from_parts(400, 0) }
    fn on_initialize_with_sell_trade() -> Weight { Weight::from_parts(300, 0) }
    fn on_initialize_with_empty_block() -> Weight { Weight::zero() }
    fn schedule() -> Weight { Weight::zero() }
    fn terminate() -> Weight { Weight::zero() }
}
parameter_types! { pub const Reserve: [u8; 8] = RES; pub const Spread: Permill = Permill::from_parts(SPREAD); pub const Treasury: u64 = TREASURY; }
impl pallet_dca::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type AssetId = AssetId;
    type TechnicalOrigin = frame_system::EnsureRoot<u64>;
    type Currencies = Tokens;
    type RelayChainBlockHashProvider = Hashes;
    type RandomnessProvider = Dca;
    type OraclePriceProvider = Oracle;
    type NativePriceOracle = Native;
    type RouteExecutor = Market;
    type RouteProvider = Routes;
    type RetryOnError = Again;
    type MaxPriceDifferenceBetweenBlocks = Spread;
    type MaxSchedulePerBlock = ConstU32<{ FULL as u32 }>;
    type MaxNumberOfRetriesOnError = ConstU8<RETRIES>;
    type MinimumTradingLimit = ConstU128<MIN_TRADE>;
    type NativeAssetId = ConstU32<0>;
    type MinBudgetInNativeCurrency = ConstU128<BUDGET>;
    type FeeReceiver = Treasury;
    type NamedReserveId = Reserve;
    type WeightToFee = Fee;
    type AmmTradeWeights = Hops;
    type WeightInfo = Weights;
}

// ---- the rules, restated ----
fn route(o: &O) -> Vec<T> { let (r, a, b) = match o { Order::Sell { route, asset_in, asset_out, .. } | Order::Buy { route, asset_in, asset_out, .. } => (route, *asset_in, *asset_out) }; if r.is_empty() { Routes::get_route(AssetPair::new(a, b)) } else { r.to_vec() } }
fn paid_in(o: &O) -> AssetId { match o { Order::Sell { asset_in, .. } | Order::Buy { asset_in, .. } => *asset_in } }
fn in_asset(a: AssetId, x: u128) -> Result<u128, E> { if a == 0 { return Ok(x) } let (n, d) = mood().native.ok_or(E::Other("price"))?; Ok((x * n).div_ceil(d)) }
fn fee(o: &O) -> Result<u128, E> { let hops = route(o).len() as u128; in_asset(paid_in(o), match o { Order::Sell { .. } => 3 + hops, Order::Buy { .. } => 4 + 2 * hops }) }
/// the amount that one trade spends
fn size(o: &O) -> Result<u128, E> { match o { Order::Sell { amount_in, .. } => Ok(*amount_in), Order::Buy { amount_out, .. } => quote_buy(&route(o), *amount_out) } }
fn release(id: u32, s: &S, x: u128) -> DispatchResult {
    let r = RemainingAmounts::<Rt>::get(id).unwrap();
    if x > r { return Err(E::Other("budget")) }
    RemainingAmounts::<Rt>::insert(id, r - x);
    if <Tokens as NamedMultiReservableCurrency<u64>>::unreserve_named(&RES, paid_in(&s.order), &s.owner, x) != 0 { return Err(E::Other("reserve")) }
    Ok(())
}
fn forget(id: u32, s: &S) {
    let _ = <Tokens as NamedMultiReservableCurrency<u64>>::unreserve_named(&RES, paid_in(&s.order), &s.owner, RemainingAmounts::<Rt>::get(id).unwrap());
    Schedules::<Rt>::remove(id); ScheduleOwnership::<Rt>::remove(s.owner, id); RemainingAmounts::<Rt>::remove(id); RetriesOnError::<Rt>::remove(id);
}
fn room(b: u64) -> bool { ScheduleIdsPerBlock::<Rt>::get(b).len() < FULL }
/// blocks a schedule may be planned for that wants one: that block, or when full, a random later one, ever later
fn places(want: u64) -> BTreeSet<u64> {
    let (mut at, mut ok) = (BTreeSet::from([want]), BTreeSet::new());
    for i in 0..=10u32 {
        let mut next = BTreeSet::new();
        for b in at { if room(b) { ok.insert(b); } else { for d in (1u64 << i)..(1 << (i + 1)) { next.insert(b + d); } } }
        at = next;
    }
    ok
}
struct Said { planned: BTreeMap<u32, u64>, events: Vec<Event<Rt>>, bad: Option<String> }
impl Said {
    /// the block that was chosen is taken from what was announced, if it is one of those allowed
    fn plan(&mut self, id: u32, who: u64, want: u64) -> DispatchResult {
        if want <= System::block_number() { return Err(E::Other("past")) }
        let ok = places(want);
        let b = match self.planned.get(&id) { Some(b) if ok.contains(b) => *b, x => { self.bad = Some(format!("schedule {id} planned for {x:?}, wanted {want}, possible {ok:?}")); *ok.iter().next().unwrap() } };
        ScheduleIdsPerBlock::<Rt>::try_mutate(b, |v| v.try_push(id)).map_err(|_| E::Other("full"))?;
        self.events.push(Event::ExecutionPlanned { id, who, block: b });
        Ok(())
    }
    fn again(&mut self, id: u32, s: &S) -> DispatchResult {
        let n = RetriesOnError::<Rt>::get(id);
        if n >= s.max_retries.unwrap_or(RETRIES) { return Err(E::Other("retries")) }
        RetriesOnError::<Rt>::insert(id, n + 1);
        self.plan(id, s.owner, System::block_number() + 10 * (1u64 << n))
    }
    fn end(&mut self, id: u32, s: &S) { forget(id, s); self.events.push(Event::Terminated { id, who: s.owner, error: NONE }); }
}
const NONE: E = E::Other("");
fn spec_schedule(who: u64, s: &S, at: Option<u64>, said: &mut Said) -> DispatchResult {
    if who != s.owner { return Err(E::BadOrigin) }
    let a = paid_in(&s.order);
    let (f, x) = (fee(&s.order)?, size(&s.order)?);
    if s.total_amount < in_asset(a, BUDGET)? || x < 20 * f || x < MIN_TRADE || x + f > s.total_amount { return Err(E::Other("amount")) }
    let id = ScheduleIdSequencer::<Rt>::get();
    ScheduleIdSequencer::<Rt>::put(id + 1);
    Schedules::<Rt>::insert(id, s); ScheduleOwnership::<Rt>::insert(who, id, ()); RemainingAmounts::<Rt>::insert(id, s.total_amount);
    <Tokens as NamedMultiReservableCurrency<u64>>::reserve_named(&RES, a, &who, s.total_amount)?;
    said.plan(id, who, at.unwrap_or(System::block_number() + 1))?;
    said.events.push(Event::Scheduled { id, who, period: s.period, total_amount: s.total_amount, order: s.order.clone() });
    Ok(())
}
fn spec_terminate(who: Option<u64>, id: u32, at: Option<u64>, said: &mut Said) -> DispatchResult {
    let s = Schedules::<Rt>::get(id).ok_or(NONE)?;
    if who.map_or(false, |w| w != s.owner) { return Err(E::BadOrigin) }
    let at = at.unwrap_or(System::block_number() + 1);
    let mut v = ScheduleIdsPerBlock::<Rt>::get(at).to_vec();
    let i = v.iter().position(|x| *x == id).ok_or(NONE)?;
    v.remove(i);
    ScheduleIdsPerBlock::<Rt>::insert(at, BoundedVec::truncate_from(v));
    said.end(id, &s);
    Ok(())
}
/// half a percent is a difference of that part of the mean of the two prices
fn unstable(s: &S) -> bool {
    let r = route(&s.order);
    let (Some(l), Some(t)) = (oracle(&r, OraclePeriod::LastBlock), oracle(&r, OraclePeriod::Short)) else { return true };
    let p = |(n, d): (u128, u128)| n * 10u128.pow(18) / d;
    let (l, t) = (p(l), p(t));
    let part = s.stability_threshold.unwrap_or(Permill::from_parts(SPREAD)).deconstruct() as u128;
    l.abs_diff(t) * 2 > (l + t) * part / 1_000_000
}
/// what an amount of one end of the route is worth in the other by the last block's oracle, and the slippage
fn limits(r: &[T], s: &S, x: u128, sell: bool) -> Result<(u128, u128), E> {
    let (n, d) = oracle(r, OraclePeriod::LastBlock).ok_or(NONE)?;
    let (n, d) = if sell { (d, n) } else { (n, d) };
    let w = (U256::from(n * 10u128.pow(18) / d) * U256::from(x) / U256::from(10u128.pow(18))).as_u128();
    Ok((w, w * s.slippage.unwrap_or(Permill::from_parts(SPREAD)).deconstruct() as u128 / 1_000_000))
}
fn trade(id: u32, s: &S) -> Result<(u128, u128), (bool, E)> {
    let r = route(&s.order);
    let fail = |e: E| (e == E::Other("again"), e);
    let me = RuntimeOrigin::from(frame_system::RawOrigin::Signed(s.owner));
    match &s.order {
        Order::Sell { asset_in, asset_out, amount_in, min_amount_out, .. } => {
            let x = (*amount_in).min(RemainingAmounts::<Rt>::get(id).unwrap());
            release(id, s, x).map_err(fail)?;
            let (w, slip) = limits(&r, s, x, true).map_err(fail)?;
            let y = quote_sell(&r, x).map_err(fail)?;
            if y < *min_amount_out || y < w - slip { return Err((true, NONE)) }
            Market::sell(me, *asset_in, *asset_out, x, y, r).map_err(fail)?;
            Ok((x, y))
        }
        Order::Buy { asset_in, asset_out, amount_out, max_amount_in, .. } => {
            let x = quote_buy(&r, *amount_out).map_err(fail)?;
            release(id, s, x).map_err(fail)?;
            let (w, slip) = limits(&r, s, *amount_out, false).map_err(fail)?;
            if x > *max_amount_in || x > w + slip { return Err((true, NONE)) }
            Market::buy(me, *asset_in, *asset_out, *amount_out, x, r).map_err(fail)?;
            Ok((x, *amount_out))
        }
    }
}
fn atomic<R, X>(f: impl FnOnce() -> Result<R, X>) -> Result<R, X> { let mut out = None; let _ = call(|| { let r = f(); let k = r.is_ok(); out = Some(r); if k { Ok(()) } else { Err(NONE) } }); out.unwrap() }
/// one block: the schedules due, in the order announced
fn spec_block(order: &[u32], said: &mut Said) -> Result<(), String> {
    let now = System::block_number();
    let due: BTreeSet<u32> = ScheduleIdsPerBlock::<Rt>::take(now).iter().copied().collect();
    if due != order.iter().copied().collect() || due.len() != order.len() { return Err(format!("executed {order:?} of {due:?}")) }
    for &id in order {
        said.events.push(Event::ExecutionStarted { id, block: now });
        let Some(s) = Schedules::<Rt>::get(id) else { continue };
        let who = s.owner;
        if atomic(|| { let f = fee(&s.order)?; release(id, &s, f)?; <Tokens as MultiCurrency<u64>>::transfer(paid_in(&s.order), &who, &TREASURY, f) }).is_err() { said.end(id, &s); continue }
        if unstable(&s) {
            said.events.push(Event::TradeFailed { id, who, error: NONE });
            if said.again(id, &s).is_err() { said.end(id, &s) }
            continue
        }
        match atomic(|| trade(id, &s)) {
            Ok((x, y)) => {
                said.events.push(Event::TradeExecuted { id, who, amount_in: x, amount_out: y });
                RetriesOnError::<Rt>::remove(id);
                let left = RemainingAmounts::<Rt>::get(id).unwrap();
                // a sale of what is left, or a purchase of the whole amount, must be worth its fee
                let f = fee(&s.order).map_err(|_| "fee".to_string())?;
                let done = left < 20 * f || left < MIN_TRADE || (matches!(s.order, Order::Buy { .. }) && left < f + size(&s.order).map_err(|_| "size".to_string())?);
                if done { forget(id, &s); said.events.push(Event::Completed { id, who }); }
                else if now.checked_add(s.period).map_or(true, |b| said.plan(id, who, b).is_err()) { said.end(id, &s) }
            }
            Err((retry, _)) => {
                said.events.push(Event::TradeFailed { id, who, error: NONE });
                if !retry || said.again(id, &s).is_err() { said.end(id, &s) }
            }
        }
    }
    Ok(())
}

// ---- comparing ----
fn heard(from: usize) -> Vec<Event<Rt>> {
    System::events()[from..].iter().filter_map(|e| match &e.event {
        RuntimeEvent::Dca(Event::RandomnessGenerationFailed { .. }) => None,
        RuntimeEvent::Dca(Event::TradeFailed { id, who, .. }) => Some(Event::TradeFailed { id: *id, who: *who, error: NONE }),
        RuntimeEvent::Dca(Event::Terminated { id, who, .. }) => Some(Event::Terminated { id: *id, who: *who, error: NONE }),
        RuntimeEvent::Dca(e) => Some(e.clone()),
        _ => None,
    }).collect()
}
/// the storage, without the difference between no retries and none recorded, and without the order within a block
fn map() -> sp_io::Map {
    dry(|| {
        let ids: Vec<u32> = (0..ScheduleIdSequencer::<Rt>::get()).collect();
        for id in ids { if RetriesOnError::<Rt>::get(id) == 0 { RetriesOnError::<Rt>::remove(id) } }
        for b in ScheduleIdsPerBlock::<Rt>::iter().map(|(b, _)| b).collect::<Vec<u64>>() { let mut v = ScheduleIdsPerBlock::<Rt>::get(b).to_vec(); v.sort(); if v.is_empty() { ScheduleIdsPerBlock::<Rt>::remove(b) } else { ScheduleIdsPerBlock::<Rt>::insert(b, BoundedVec::truncate_from(v)) } }
        sp_io::with_ext(|e| e.map.clone())
    })
}
fn planned(ev: &[Event<Rt>]) -> BTreeMap<u32, u64> { ev.iter().filter_map(|e| if let Event::ExecutionPlanned { id, block, .. } = e { Some((*id, *block)) } else { None }).collect() }
fn same(what: &str, got: &sp_io::Map, want: &sp_io::Map) -> Result<(), Wrong> { must!(got == want, "effect", "{what}: differs at {:?}", want.iter().filter(|(k, v)| got.get(*k) != Some(*v)).chain(got.iter().filter(|(k, _)| !want.contains_key(*k))).map(|(k, v)| (k.iter().skip(32).map(|b| format!("{b:02x}")).collect::<String>(), format!("{v:?}"))).take(4).collect::<Vec<_>>()); Ok(()) }
#[derive(Clone, Debug)]
enum Act { Plan(u64, S, Option<u64>), End(Option<u64>, u32, Option<u64>), Next(u64), Set(Mood) }
fn step(a: &Act) -> Result<bool, Wrong> {
    let m0 = map();
    let ev = System::events().len();
    match a {
        Act::Set(m) => { if *m == mood() { return Ok(false) } unhashed::put(b":mood", m); Ok(true) }
        Act::Plan(..) | Act::End(..) => {
            let real = || match a { Act::Plan(w, s, at) => Dca::schedule(signed(*w), s.clone(), *at), Act::End(w, id, at) => Dca::terminate(w.map_or(root(), signed), *id, *at), _ => unreachable!() };
            let (got, m1, said) = dry(|| { let r = real(); (r, map(), heard(ev)) });
            let mut s = Said { planned: planned(&said), events: vec![], bad: None };
            let want = dry(|| call(|| match a { Act::Plan(w, x, at) => spec_schedule(*w, x, *at, &mut s), Act::End(w, id, at) => spec_terminate(*w, *id, *at, &mut s), _ => unreachable!() }).map(|_| map()));
            match want {
                Ok(m) => {
                    must!(got.is_ok(), "accept", "refused: {got:?}");
                    must!(s.bad.is_none(), "block", "{}", s.bad.unwrap());
                    same("call", &m1, &m)?;
                    must!(said == s.events, "event", "announces {said:?}, not {:?}", s.events);
                }
                Err(e) => { must!(got.is_err(), "accept", "accepted, should be refused for {e:?}"); must!(m0 == m1, "refused", "a refused call changed the state"); }
            }
            let r = real();
            must!(r.is_ok() == got.is_ok(), "repeat", "{r:?}");
            sound()?;
            Ok(got.is_ok())
        }
        Act::Next(n) => {
            for _ in 0..*n {
                let ev = System::events().len();
                System::set_block_number(System::block_number() + 1);
                let now = System::block_number();
                let (m1, said) = dry(|| { Dca::on_initialize(now); (map(), heard(ev)) });
                let order: Vec<u32> = said.iter().filter_map(|e| if let Event::ExecutionStarted { id, .. } = e { Some(*id) } else { None }).collect();
                let mut s = Said { planned: planned(&said), events: vec![], bad: None };
                let (r, m) = dry(|| (spec_block(&order, &mut s), map()));
                if let Err(e) = r { return wrong("due", e) }
                must!(s.bad.is_none(), "block", "{}", s.bad.unwrap());
                same("block", &m1, &m)?;
                must!(said == s.events, "event", "announces {said:?}, not {:?}", s.events);
                Dca::on_initialize(now);
                sound()?;
            }
            Ok(true)
        }
    }
}
/// What holds in every state.
fn sound() -> Result<(), Wrong> {
    let now = System::block_number();
    let live: BTreeMap<u32, S> = Schedules::<Rt>::iter().collect();
    let mut at: BTreeMap<u32, u64> = BTreeMap::new();
    for (b, v) in ScheduleIdsPerBlock::<Rt>::iter() {
        must!(b > now && v.len() <= FULL, "queue", "block {b} at {now}: {v:?}");
        for id in v.iter() { must!(live.contains_key(id) && at.insert(*id, b).is_none(), "queue", "schedule {id} in block {b}"); }
    }
    let mut sum: BTreeMap<(u64, AssetId), u128> = BTreeMap::new();
    for (id, s) in &live {
        must!(at.contains_key(id), "queue", "schedule {id} is never executed");
        must!(ScheduleOwnership::<Rt>::contains_key(s.owner, id), "owner", "schedule {id}");
        let left = RemainingAmounts::<Rt>::get(id).unwrap_or(0);
        must!(left <= s.total_amount, "budget", "schedule {id} has {left} left of {}", s.total_amount);
        must!(RetriesOnError::<Rt>::get(id) <= s.max_retries.unwrap_or(RETRIES), "retries", "schedule {id}");
        *sum.entry((s.owner, paid_in(&s.order))).or_default() += left;
    }
    must!(ScheduleOwnership::<Rt>::iter().count() == live.len() && RemainingAmounts::<Rt>::iter().count() == live.len(), "owner", "records of schedules that do not exist");
    for w in [1, 2] { for c in [0, 1, 2] { let r = <Tokens as NamedMultiReservableCurrency<u64>>::reserved_balance_named(&RES, c, &w); must!(r == sum.get(&(w, c)).copied().unwrap_or(0), "reserve", "{w} has {r} of {c} reserved, schedules have {:?}", sum.get(&(w, c))); } }
    for (id, s) in &live {
        let (c, w) = (paid_in(&s.order), s.owner);
        let before = Tokens::free_balance(c, &w);
        let (r, after) = dry(|| (Dca::terminate(signed(w), *id, Some(at[id])), Tokens::free_balance(c, &w)));
        must!(r.is_ok() && after == before + RemainingAmounts::<Rt>::get(id).unwrap(), "leave", "the owner cannot end schedule {id} planned for {}: {r:?}", at[id]);
        must!(dry(|| Dca::terminate(root(), *id, Some(at[id]))).is_ok(), "leave", "root cannot end schedule {id}");
    }
    Ok(())
}

// ---- the worlds ----
const CALM: Mood = Mood { now: 100, last: Some(100), short: Some(100), native: Some((1, 2)), mode: 0, hash: Some(1), xyk: false };
fn hop(pool: PoolType<AssetId>, a: AssetId, b: AssetId) -> T { Trade { pool, asset_in: a, asset_out: b } }
fn sale(owner: u64, period: u64, total: u128, a: AssetId, b: AssetId, x: u128, min: u128, r: &[T]) -> S { Schedule { owner, period, total_amount: total, max_retries: None, stability_threshold: None, slippage: None, order: Order::Sell { asset_in: a, asset_out: b, amount_in: x, min_amount_out: min, route: BoundedVec::truncate_from(r.to_vec()) } } }
fn purchase(owner: u64, period: u64, total: u128, a: AssetId, b: AssetId, y: u128, max: u128, r: &[T]) -> S { Schedule { owner, period, total_amount: total, max_retries: None, stability_threshold: None, slippage: None, order: Order::Buy { asset_in: a, asset_out: b, amount_out: y, max_amount_in: max, route: BoundedVec::truncate_from(r.to_vec()) } } }
const X: PoolType<AssetId> = PoolType::XYK;
const OM: PoolType<AssetId> = PoolType::Omnipool;
fn usual() -> Vec<S> {
    vec![
        sale(1, 1, 500, 0, 1, 200, 0, &[]),                       // two and a bit
        sale(1, 2, 251, 1, 0, 100, 150, &[]),                      // a limit of the owner's
        purchase(2, 1, 600, 0, 1, 60, 1_000, &[]),                 // left over goes back
        S { max_retries: Some(0), ..purchase(2, 3, 700, 1, 0, 200, 105, &[]) },
        S { slippage: Some(Permill::from_percent(0)), stability_threshold: Some(Permill::from_percent(3)), ..sale(2, 1, 900, 0, 1, 400, 0, &[hop(OM, 0, 2), hop(OM, 2, 1)]) },
        S { slippage: Some(Permill::from_percent(12)), max_retries: Some(1), ..sale(1, 1, 400, 1, 0, 130, 0, &[hop(X, 1, 0)]) },
        S { slippage: Some(Permill::from_percent(20)), max_retries: Some(40), ..purchase(1, 4, 400, 1, 0, 200, 400, &[hop(X, 1, 0)]) },
        sale(1, 0, 700, 0, 1, 300, 0, &[]),                        // no period
    ]
}
fn edges() -> Vec<(u64, S, Option<u64>)> {
    let mut v: Vec<(u64, S, Option<u64>)> = vec![];
    // budget: 500 native are 250 of asset 1; fees: a sale 4 (2), a purchase 6 (3), two hops 5 and 8
    for t in [499, 500] { v.push((1, sale(1, 1, t, 0, 1, 100, 0, &[]), None)); }
    for t in [249, 250, 251] { v.push((1, sale(1, 1, t, 1, 0, 100, 0, &[]), None)); v.push((2, purchase(2, 1, t, 1, 0, 120, 100, &[]), None)); }
    for x in [79, 80, 496, 497, 500, 501] { v.push((1, sale(1, 1, 500, 0, 1, x, 0, &[]), None)); }
    for x in [99, 100] { v.push((2, sale(2, 1, 500, 0, 1, x, 0, &[hop(OM, 0, 2), hop(OM, 2, 1)]), None)); }
    for x in [29, 30, 39, 40] { v.push((1, sale(1, 1, 300, 1, 0, x, 0, &[]), None)); }
    for y in [59, 60, 61, 247, 248] { v.push((2, purchase(2, 1, 500, 0, 1, y, 1_000, &[]), None)); }
    for y in [119, 120, 121] { v.push((2, purchase(2, 1, 300, 1, 0, y, 1_000, &[]), None)); }
    v.push((2, sale(1, 1, 500, 0, 1, 100, 0, &[]), None));
    v.push((1, sale(1, 1, 100_000, 0, 1, 100, 0, &[]), None));
    v.push((1, sale(1, 1, 500, 0, 1, 100, 0, &[hop(OM, 1, 0)]), None));
    v.push((1, sale(1, u64::MAX, 500, 0, 1, 100, 0, &[]), None));
    for at in [0, 1, 2, 3] { v.push((1, sale(1, 1, 500, 0, 1, 100, 0, &[]), Some(at))); }
    v
}
fn begin(name: &str, m: Mood, acts: &[Act]) -> Start<()> {
    start(name, || {
        System::set_block_number(1);
        unhashed::put(b":mood", &m);
        for (w, c, x) in [(1, 0, 3_000), (1, 1, 1_500), (2, 0, 2_500), (2, 1, 1_000), (MARKET, 0, 1_000_000), (MARKET, 1, 1_000_000), (TREASURY, 0, 10), (TREASURY, 1, 10)] { <Tokens as MultiCurrency<u64>>::deposit(c, &w, x).unwrap(); }
        for a in acts { match step(a) { Ok(true) => (), x => panic!("start {name}: {a:?} gives {x:?}") } }
        sound().unwrap();
    })
}
fn moods() -> Vec<Mood> {
    let mut v = vec![CALM];
    for now in [88, 89, 90, 95, 105, 112] { v.push(Mood { now, ..CALM }); }
    for mode in 1..=5 { v.push(Mood { mode, ..CALM }); }
    for (l, s) in [(100, 103), (100, 104), (100, 110), (100, 111), (100, 112), (112, 100), (90, 99)] { v.push(Mood { last: Some(l), short: Some(s), ..CALM }); }
    v.push(Mood { last: None, ..CALM }); v.push(Mood { short: None, ..CALM });
    v.push(Mood { native: None, ..CALM }); v.push(Mood { native: Some((5, 2)), ..CALM }); v.push(Mood { native: Some((100, 1)), ..CALM }); v.push(Mood { native: Some((1, 100)), ..CALM });
    v.push(Mood { xyk: true, ..CALM });
    v.push(Mood { now: 90, last: Some(90), short: Some(90), ..CALM });
    v
}
fn ends_of(v: &mut Vec<Act>) {
    for (b, ids) in ScheduleIdsPerBlock::<Rt>::iter().collect::<BTreeMap<_, _>>() { for (i, id) in ids.iter().enumerate() {
        let w = Schedules::<Rt>::get(id).map_or(1, |s| s.owner);
        v.push(Act::End(Some(w), *id, Some(b))); v.push(Act::End(Some(3 - w), *id, Some(b)));
        if i == 0 { v.push(Act::End(Some(w), *id, None)); v.push(Act::End(None, *id, Some(b))); v.push(Act::End(Some(w), *id, Some(b + 1))); }
    } }
    v.push(Act::End(Some(1), ScheduleIdSequencer::<Rt>::get(), None));
}
fn main() {
    let ck = kit::Check::new("P18");
    let u = usual();
    let plan = |s: &S, at| Act::Plan(s.owner, s.clone(), at);
    let seeds: Vec<Option<u64>> = vec![Some(1), Some(2), Some(3), None];
    // what can be scheduled, in all circumstances
    let mut sched = vec![];
    for (w, s, at) in edges() { sched.push(Act::Plan(w, s, at)); }
    for s in &u { sched.push(plan(s, None)); }
    let starts = moods().into_iter().map(|m| begin(&format!("{m:?}"), m, &[])).collect();
    World { name: "scheduling", depth: ck.pick(2, 3), events: true, actions: &|_: &()| { let mut v = sched.clone(); ends_of(&mut v); v.push(Act::Next(1)); v }, step: &|a: &Act, _: &mut ()| step(a), prepare: &|| {} }.explore(&ck, starts);
    // lives of a few schedules
    let mut starts = vec![];
    for (k, s) in u.iter().enumerate() { starts.push(begin(&format!("schedule {k}"), CALM, &[plan(s, None)])); }
    for h in &seeds { let m = Mood { hash: *h, ..CALM }; starts.push(begin(&format!("crowd {h:?}"), m, &[plan(&u[0], None), plan(&u[2], None), plan(&u[4], None), plan(&u[5], None), plan(&u[0], None), plan(&u[2], Some(4))])); }
    let ms = moods();
    World { name: "lives", depth: ck.pick(4, 5), events: true, actions: &|_: &()| {
        let mut v = vec![Act::Next(1), Act::Next(2), Act::Next(10), Act::Next(20)];
        let h = mood().hash;
        for m in &ms { v.push(Act::Set(Mood { hash: h, ..*m })); }
        ends_of(&mut v);
        v
    }, step: &|a: &Act, _: &mut ()| step(a), prepare: &|| {} }.explore(&ck, starts);
    // many schedules for few places
    let starts = seeds.iter().map(|h| begin(&format!("places {h:?}"), Mood { hash: *h, ..CALM }, &[])).collect();
    World { name: "places", depth: ck.pick(6, 8), events: true, actions: &|_: &()| {
        let mut v = vec![Act::Next(1)];
        let now = System::block_number();
        for s in [&u[0], &u[2]] { v.push(plan(s, None)); v.push(plan(s, Some(now + 2))); }
        v.push(Act::Set(Mood { hash: mood().hash, mode: 3, ..CALM }));
        let t: BTreeMap<u64, Vec<u32>> = ScheduleIdsPerBlock::<Rt>::iter().map(|(b, i)| (b, i.to_vec())).collect();
        if let Some((b, ids)) = t.iter().next() { for id in ids { v.push(Act::End(None, *id, Some(*b))); } }
        v
    }, step: &|a: &Act, _: &mut ()| step(a), prepare: &|| {} }.explore(&ck, starts);
    ck.finish()
}
