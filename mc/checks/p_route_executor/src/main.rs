//! P17: the router, on the real pallet-route-executor and the real tuple of venues of hydradx-traits; the venues are
//! small exact markets over the stand-in tokens, and one of them can be made to pay too much or take too little.
use frame_support::{parameter_types, storage::unhashed, traits::{fungibles::{Inspect, Mutate}, tokens::{Fortitude::Polite, Preservation::{Expendable, Preserve}}, ConstU32, Nothing}};
use hydradx_traits::router::{AmountInAndOut, AssetPair, ExecutorError, PoolType, RefundEdCalculator, RouteProvider, RouteSpotPriceProvider, RouterT, Trade, TradeExecution};
use orml_traits::{parameter_type_with_key, MultiCurrency};
use pallet_route_executor::{Event, Routes};
use sp_core::U256;
use sp_runtime::{DispatchError, FixedU128};
use world::*;

frame_support::construct_runtime!(pub enum Rt { System: frame_system, Tokens: orml_tokens, Router: pallet_route_executor });
world::system!(Rt, ());
const ED: [u128; 6] = [10, 2, 5, 1, 4, 1];
parameter_type_with_key! { pub Eds: |a: AssetId| -> Balance { ED[*a as usize] }; }
world::tokens!(Rt, Eds, Nothing, ());
type Pool = PoolType<AssetId>;
type T = Trade<AssetId>;
type E = DispatchError;
const REFUND: u128 = 10;
const MAX: usize = 5;
const CURVE: Pool = PoolType::Stableswap(7);
/// account of a market: one per venue and pair
fn venue(p: Pool, a: AssetId, b: AssetId) -> u64 { let v = match p { PoolType::XYK => 1, PoolType::LBP => 2, PoolType::Stableswap(i) => 10 + i as u64, PoolType::Omnipool => 3 }; v * 10_000 + (a.min(b) * 100 + a.max(b)) as u64 }
fn res(p: Pool, a: AssetId, b: AssetId) -> Result<(u128, u128), E> {
    let w = venue(p, a, b);
    let (x, y) = (Tokens::free_balance(a, &w), Tokens::free_balance(b, &w));
    if x == 0 || y == 0 || a == b { Err(E::Other("no market")) } else { Ok((x, y)) }
}
fn quote_sell(p: Pool, a: AssetId, b: AssetId, x: u128) -> Result<u128, E> {
    let (r, s) = res(p, a, b)?;
    if x == 0 || x > r { return Err(E::Other("amount")) }
    let y = s * x / (r + x);
    Ok(y - y / 100)
}
fn quote_buy(p: Pool, a: AssetId, b: AssetId, y: u128) -> Result<u128, E> {
    let (r, s) = res(p, a, b)?;
    if y == 0 || y >= s / 2 { return Err(E::Other("amount")) }
    let x = r * y / (s - y) + 1;
    Ok(x + x / 100)
}
/// a market that is out of step: pays `.0` more and takes `.1` less than it said
fn skew(p: Pool) -> (u128, u128) { if p == CURVE { unhashed::get(b":skew").unwrap_or((0, 0)) } else { (0, 0) } }
fn swap(who: u64, p: Pool, a: AssetId, b: AssetId, x: u128, y: u128) -> Result<(), E> {
    let w = venue(p, a, b);
    let k = skew(p);
    <Tokens as MultiCurrency<u64>>::transfer(a, &who, &w, x.saturating_sub(k.1))?;
    <Tokens as MultiCurrency<u64>>::transfer(b, &w, &who, y + k.0)
}
fn do_sell(who: u64, p: Pool, a: AssetId, b: AssetId, x: u128, min: u128) -> Result<(), E> { let y = quote_sell(p, a, b, x)?; if y < min { return Err(E::Other("limit")) } swap(who, p, a, b, x, y) }
fn do_buy(who: u64, p: Pool, a: AssetId, b: AssetId, y: u128, max: u128) -> Result<(), E> { let x = quote_buy(p, a, b, y)?; if x > max { return Err(E::Other("limit")) } swap(who, p, a, b, x, y) }
fn price(p: Pool, a: AssetId, b: AssetId) -> Result<FixedU128, E> { let (r, s) = res(p, a, b)?; Ok(FixedU128::from_inner((U256::from(r) * U256::from(10u128.pow(18)) / U256::from(s)).as_u128())) }
macro_rules! venue { ($n:ident, $p:pat) => {
    pub struct $n;
    impl $n { fn mine(p: Pool) -> Result<(), ExecutorError<E>> { if matches!(p, $p) { Ok(()) } else { Err(ExecutorError::NotSupported) } } }
    impl TradeExecution<RuntimeOrigin, u64, AssetId, Balance> for $n {
        type Error = E;
        fn calculate_sell(p: Pool, a: AssetId, b: AssetId, x: u128) -> Result<u128, ExecutorError<E>> { Self::mine(p)?; quote_sell(p, a, b, x).map_err(ExecutorError::Error) }
        fn calculate_buy(p: Pool, a: AssetId, b: AssetId, y: u128) -> Result<u128, ExecutorError<E>> { Self::mine(p)?; quote_buy(p, a, b, y).map_err(ExecutorError::Error) }
        fn execute_sell(o: RuntimeOrigin, p: Pool, a: AssetId, b: AssetId, x: u128, m: u128) -> Result<(), ExecutorError<E>> { Self::mine(p)?; let w = frame_system::ensure_signed(o).map_err(|e| ExecutorError::Error(e.into()))?; do_sell(w, p, a, b, x, m).map_err(ExecutorError::Error) }
        fn execute_buy(o: RuntimeOrigin, p: Pool, a: AssetId, b: AssetId, y: u128, m: u128) -> Result<(), ExecutorError<E>> { Self::mine(p)?; let w = frame_system::ensure_signed(o).map_err(|e| ExecutorError::Error(e.into()))?; do_buy(w, p, a, b, y, m).map_err(ExecutorError::Error) }
        fn get_liquidity_depth(p: Pool, a: AssetId, b: AssetId) -> Result<u128, ExecutorError<E>> { Self::mine(p)?; depth(p, a, b).map_err(ExecutorError::Error) }
        fn calculate_spot_price_with_fee(p: Pool, a: AssetId, b: AssetId) -> Result<FixedU128, ExecutorError<E>> { Self::mine(p)?; price(p, a, b).map_err(ExecutorError::Error) }
    }
} }
venue!(Xyks, PoolType::XYK);
venue!(Curves, PoolType::Stableswap(_));
venue!(Omni, PoolType::Omnipool);
/// The depth of the Omnipool is asked against the native asset and that of a stable pool against its share.
fn depth(p: Pool, a: AssetId, b: AssetId) -> Result<u128, E> {
    match p {
        PoolType::Omnipool => { assert_eq!(b, 0); Ok((0..6).filter(|c| *c != a).map(|c| Tokens::free_balance(a, &venue(p, a, c))).max().unwrap()) }
        PoolType::Stableswap(i) => { assert_eq!(b, i); Ok((0..6).filter(|c| *c != a).map(|c| Tokens::free_balance(a, &venue(p, a, c))).max().unwrap()) }
        _ => res(p, a, b).map(|r| r.0),
    }
}
/// asset 4 is not sufficient
pub struct Registry;
impl hydradx_traits::registry::Inspect for Registry {
    type AssetId = AssetId;
    type Location = u8;
    fn is_sufficient(a: AssetId) -> bool { a != 4 }
    fn exists(_: AssetId) -> bool { unimplemented!() }
    fn decimals(_: AssetId) -> Option<u8> { unimplemented!() }
    fn asset_type(_: AssetId) -> Option<hydradx_traits::registry::AssetKind> { unimplemented!() }
    fn is_banned(_: AssetId) -> bool { unimplemented!() }
    fn asset_name(_: AssetId) -> Option<Vec<u8>> { unimplemented!() }
    fn asset_symbol(_: AssetId) -> Option<Vec<u8>> { unimplemented!() }
    fn existential_deposit(_: AssetId) -> Option<u128> { unimplemented!() }
}
pub struct Refund;
impl RefundEdCalculator<Balance> for Refund { fn calculate() -> u128 { REFUND } }
parameter_types! { pub DefaultPool: Pool = PoolType::Omnipool; }
impl pallet_route_executor::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type AssetId = AssetId;
    type Balance = Balance;
    type NativeAssetId = ConstU32<0>;
    type Currency = Tokens;
    type InspectRegistry = Registry;
    type AMM = (Xyks, Curves, Omni);
    type EdToRefundCalculator = Refund;
    type DefaultRoutePoolType = DefaultPool;
    type TechnicalOrigin = frame_system::EnsureRoot<u64>;
    type WeightInfo = ();
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Lim { Off, Exact, Tight }
#[derive(Clone, Debug)]
enum Act { Sell(u64, AssetId, AssetId, u128, Lim, usize), Buy(u64, AssetId, AssetId, u128, Lim, usize), Set(u64, AssetId, AssetId, usize), Force(Option<u64>, AssetId, AssetId, usize), Pump(Pool, AssetId, AssetId, u128), Skew(u128, u128) }
const X: Pool = PoolType::XYK;
const O: Pool = PoolType::Omnipool;
const L: Pool = PoolType::LBP;
fn routes() -> Vec<Vec<T>> {
    let t = |pool, asset_in, asset_out| Trade { pool, asset_in, asset_out };
    vec![
        vec![],
        vec![t(X, 1, 2)], vec![t(X, 2, 1)], vec![t(CURVE, 1, 2)], vec![t(O, 1, 2)],
        vec![t(X, 1, 0), t(O, 0, 2)], vec![t(O, 2, 0), t(X, 0, 1)], vec![t(CURVE, 1, 3), t(X, 3, 2)], vec![t(X, 2, 3), t(CURVE, 3, 1)],
        vec![t(X, 1, 2), t(X, 2, 1), t(X, 1, 2)], vec![t(X, 1, 2), t(CURVE, 2, 1), t(O, 1, 2)],
        vec![t(X, 1, 3), t(X, 0, 2)], vec![t(L, 1, 2)], vec![t(X, 1, 0), t(L, 0, 2)], vec![t(PoolType::Stableswap(9), 1, 2)],
        vec![t(X, 1, 2), t(CURVE, 2, 1), t(X, 1, 0), t(O, 0, 1), t(CURVE, 1, 2)], vec![t(X, 1, 2), t(CURVE, 2, 1), t(X, 1, 0), t(O, 0, 1), t(CURVE, 1, 2), t(X, 2, 3)],
        vec![t(X, 4, 0)], vec![t(X, 1, 4), t(X, 4, 0)], vec![t(X, 4, 1), t(X, 1, 0)], vec![t(X, 1, 4), t(CURVE, 4, 2)],
        vec![t(X, 1, 0)], vec![t(O, 1, 2), t(CURVE, 2, 1)],
    ]
}
fn pair(a: AssetId, b: AssetId) -> AssetPair<AssetId> { AssetPair::new(a, b) }
fn back(r: &[T]) -> Vec<T> { r.iter().rev().map(|t| Trade { pool: t.pool, asset_in: t.asset_out, asset_out: t.asset_in }).collect() }
fn stored(a: AssetId, b: AssetId) -> Option<Vec<T>> { Routes::<Rt>::get(pair(a, b)).map(|r| r.to_vec()) }
/// the route of a pair: what is stored for the pair in order, either way round, or one trade in the Omnipool
fn way(a: AssetId, b: AssetId) -> Vec<T> { if a <= b { stored(a, b) } else { stored(b, a).map(|r| back(&r)) }.unwrap_or(vec![Trade { pool: O, asset_in: a, asset_out: b }]) }
fn fits(a: AssetId, b: AssetId, r: &[T]) -> bool { !r.is_empty() && r.len() <= MAX && r[0].asset_in == a && r[r.len() - 1].asset_out == b && r.windows(2).all(|w| w[0].asset_out == w[1].asset_in) }
fn known(p: Pool) -> Result<(), E> { if p == L { Err(E::Other("venue")) } else { Ok(()) } }
fn quotes_sell(r: &[T], x: u128) -> Result<Vec<(u128, u128)>, E> { let mut x = x; r.iter().map(|t| { known(t.pool)?; let y = quote_sell(t.pool, t.asset_in, t.asset_out, x)?; let q = (x, y); x = y; Ok(q) }).collect() }
fn quotes_buy(r: &[T], y: u128) -> Result<Vec<(u128, u128)>, E> { let mut y = y; let mut v: Vec<(u128, u128)> = r.iter().rev().map(|t| { known(t.pool)?; let x = quote_buy(t.pool, t.asset_in, t.asset_out, y)?; let q = (x, y); y = x; Ok(q) }).collect::<Result<_, E>>()?; v.reverse(); Ok(v) }
fn all(a: AssetId, w: u64) -> u128 { Tokens::reducible_balance(a, &w, Expendable, Polite) }
fn most(a: AssetId, w: u64) -> u128 { Tokens::reducible_balance(a, &w, Preserve, Polite) }
/// received at most what was promised, but for the refunded deposit of an asset that is not sufficient
fn at_most(i: AssetId, o: AssetId, w: u64, before: u128, said: u128) -> Result<(), E> {
    let got = most(o, w).checked_sub(before).ok_or(E::Other("received"))?;
    let extra = if i == 4 && o == 0 { REFUND } else { 0 };
    if got > said + extra { Err(E::Other("received")) } else { Ok(()) }
}
fn at_least(i: AssetId, w: u64, before: u128, said: u128) -> Result<(), E> { if before.checked_sub(most(i, w)).ok_or(E::Other("spent"))? < said { Err(E::Other("spent")) } else { Ok(()) } }
fn resolve(a: AssetId, b: AssetId, r: &[T]) -> Result<Vec<T>, E> {
    let r = if r.is_empty() { way(a, b) } else { r.to_vec() };
    if a == b || !fits(a, b, &r) { return Err(E::Other("route")) }
    Ok(r)
}
/// (paid, received)
fn sell(w: u64, a: AssetId, b: AssetId, x: u128, min: u128, r: &[T]) -> Result<(u128, u128), E> {
    let r = resolve(a, b, r)?;
    let q = quotes_sell(&r, x)?;
    let y = q.last().unwrap().1;
    if y < min { return Err(E::Other("limit")) }
    let before = most(b, w);
    for (t, (x, y)) in r.iter().zip(&q) { let h = all(t.asset_in, w); do_sell(w, t.pool, t.asset_in, t.asset_out, *x, *y)?; at_least(t.asset_in, w, h, *x)?; }
    at_most(a, b, w, before, y)?;
    Ok((x, y))
}
fn buy(w: u64, a: AssetId, b: AssetId, y: u128, max: u128, r: &[T]) -> Result<(u128, u128), E> {
    let r = resolve(a, b, r)?;
    let q = quotes_buy(&r, y)?;
    let x = q[0].0;
    if x > max { return Err(E::Other("limit")) }
    let before = all(a, w);
    for (t, (x, y)) in r.iter().zip(&q) { let h = most(t.asset_out, w); do_buy(w, t.pool, t.asset_in, t.asset_out, *y, *x)?; at_most(t.asset_in, t.asset_out, w, h, *y)?; }
    at_least(a, w, before, x)?;
    Ok((x, y))
}
/// what the router's own account is left with after selling x, tried and undone
fn trial(r: &[T], x: u128) -> Option<u128> {
    let me = pallet_route_executor::Pallet::<Rt>::router_account();
    let (a, b) = (r[0].asset_in, r[r.len() - 1].asset_out);
    dry(|| { let _ = Tokens::mint_into(a, &me, x); call(|| sell(me, a, b, x, 0, r)).ok().map(|_| all(b, me)) })
}
fn hundredth(r: &[T]) -> Result<u128, E> { let t = r[0]; known(t.pool)?; depth(t.pool, t.asset_in, match t.pool { PoolType::Omnipool => 0, PoolType::Stableswap(i) => i, _ => t.asset_out }).map(|d| d / 100) }
/// a route works when it can be traded both ways, with a hundredth of the first pool or with what the other way gives for one
fn works(r: &[T], x: u128, z: u128) -> Option<(u128, u128)> {
    match (trial(r, x), trial(&back(r), z)) {
        (Some(_), Some(_)) => Some((x, z)),
        (None, Some(y)) => trial(r, y).map(|_| (y, z)),
        (Some(y), None) => trial(&back(r), y).map(|_| (x, y)),
        (None, None) => None,
    }
}
fn works_by_depth(r: &[T]) -> Option<(u128, u128)> { if r.is_empty() { return None } works(r, hundredth(r).ok()?, hundredth(&back(r)).ok()?) }
fn brings(r: &[T], x: u128) -> Option<u128> { quotes_sell(r, x).ok().map(|q| q.last().unwrap().1) }
fn set(a: AssetId, b: AssetId, r: &[T]) -> Result<(), E> {
    let no = E::Other("no");
    if !fits(a, b, r) || r.iter().any(|t| t.asset_in == 4 || t.asset_out == 4) { return Err(no) }
    let (a, b, r) = if a <= b { (a, b, r.to_vec()) } else { (b, a, back(r)) };
    let now = way(a, b);
    match works_by_depth(&now) {
        None => { works_by_depth(&r).ok_or(no)?; }
        // it must be better both ways, for the same amounts
        Some((x, z)) => {
            works(&r, x, z).ok_or(no)?;
            let better = |new: &[T], old: &[T], x: u128| Some(brings(new, x)? > brings(old, x)?);
            if better(&r, &now, x) != Some(true) || better(&back(&r), &back(&now), z) != Some(true) { return Err(no) }
        }
    }
    Routes::<Rt>::insert(pair(a, b), sp_core::bounded::BoundedVec::truncate_from(r));
    Ok(())
}
fn map() -> sp_io::Map { sp_io::with_ext(|e| e.map.clone()) }
fn limit(l: Lim, off: u128, exact: Option<u128>, tight: fn(u128) -> u128) -> u128 { match (l, exact) { (Lim::Off, _) | (_, None) => off, (Lim::Exact, Some(x)) => x, (Lim::Tight, Some(x)) => tight(x) } }
fn step(a: &Act) -> Result<bool, Wrong> {
    let m0 = map();
    let rs = routes();
    let ev = System::events().len();
    let mut said = None;
    let mut free = true;
    // want: the state to be left, or nothing if the call must be refused
    let go = |f: &dyn Fn() -> Result<(u128, u128), E>| dry(|| call(f).ok().map(|x| (x, map())));
    let (want, got): (Option<((u128, u128), sp_io::Map)>, Result<(), E>) = match *a {
        Act::Sell(w, i, o, x, l, k) => {
            let exact = resolve(i, o, &rs[k]).ok().and_then(|r| brings(&r, x));
            let min = limit(l, 0, exact, |y| y + 1);
            let want = go(&|| sell(w, i, o, x, min, &rs[k]));
            if let Some((q, _)) = &want { said = Some(Event::Executed { asset_in: i, asset_out: o, amount_in: q.0, amount_out: q.1 }); must!(q.0 == x && q.1 >= min, "limit", "{q:?}"); }
            (want, if k % 2 == 0 { Router::sell(signed(w), i, o, x, min, rs[k].clone()) } else { <Router as RouterT<_, _, _, _, _>>::sell(signed(w), i, o, x, min, rs[k].clone()) })
        }
        Act::Buy(w, i, o, y, l, k) => {
            let exact = resolve(i, o, &rs[k]).ok().and_then(|r| quotes_buy(&r, y).ok()).map(|q| q[0].0);
            let max = limit(l, u128::MAX, exact, |y| y - 1);
            let want = go(&|| buy(w, i, o, y, max, &rs[k]));
            if let Some((q, _)) = &want { said = Some(Event::Executed { asset_in: i, asset_out: o, amount_in: q.0, amount_out: q.1 }); must!(q.1 == y && q.0 <= max, "limit", "{q:?}"); }
            (want, if k % 2 == 0 { Router::buy(signed(w), i, o, y, max, rs[k].clone()) } else { <Router as RouterT<_, _, _, _, _>>::buy(signed(w), i, o, y, max, rs[k].clone()) })
        }
        Act::Set(w, i, o, k) => {
            let want = go(&|| set(i, o, &rs[k]).map(|_| (0, 0)));
            said = Some(Event::RouteUpdated { asset_ids: vec![i.min(o), i.max(o)] });
            let r = if k % 2 == 0 { Router::set_route(signed(w), pair(i, o), rs[k].clone()) } else { <Router as RouterT<_, _, _, _, _>>::set_route(signed(w), pair(i, o), rs[k].clone()) };
            if let Ok(p) = &r { free = p.pays_fee == frame_support::dispatch::Pays::No; }
            (want, r.map(|_| ()).map_err(|e| e.error))
        }
        Act::Force(w, i, o, k) => {
            let want = go(&|| { if w.is_some() || rs[k].len() > MAX { return Err(E::BadOrigin) } Routes::<Rt>::insert(pair(i.min(o), i.max(o)), sp_core::bounded::BoundedVec::truncate_from(if i <= o { rs[k].clone() } else { back(&rs[k]) })); Ok((0, 0)) });
            said = Some(Event::RouteUpdated { asset_ids: vec![i.min(o), i.max(o)] });
            let r = Router::force_insert_route(w.map_or(root(), signed), pair(i, o), rs[k].clone());
            if let Ok(p) = &r { free = p.pays_fee == frame_support::dispatch::Pays::No; }
            (want, r.map(|_| ()).map_err(|e| e.error))
        }
        Act::Pump(p, i, o, x) => { let r = <Tokens as MultiCurrency<u64>>::deposit(i, &venue(p, i, o), x); return Ok(r.is_ok()) }
        Act::Skew(x, y) => { unhashed::put(b":skew", &(x, y)); return Ok(true) }
    };
    let m1 = map();
    match want {
        Some((q, m)) => {
            must!(got.is_ok(), "accept", "refused: {got:?}, expected {q:?}");
            must!(m == m1, "effect", "expected {q:?}; {:?}", m.iter().filter(|(k, v)| m1.get(*k) != Some(*v)).map(|(k, _)| k.iter().map(|b| format!("{b:02x}")).collect::<String>()).collect::<Vec<_>>());
            must!(free, "fee", "a successful update is charged");
            let heard: Vec<_> = System::events()[ev..].iter().filter_map(|e| if let RuntimeEvent::Router(e) = &e.event { Some(e.clone()) } else { None }).collect();
            must!(heard == said.into_iter().collect::<Vec<_>>(), "event", "announces {heard:?}");
        }
        None => { must!(got.is_err(), "accept", "accepted"); must!(m0 == m1, "refused", "a refused call ({got:?}) changed the state"); }
    }
    asks()?;
    Ok(got.is_ok())
}
/// Every question about routes and amounts.
fn asks() -> Result<(), Wrong> {
    for a in 0..5 { for b in 0..5 { must!(<Router as RouteProvider<AssetId>>::get_route(pair(a, b)) == way(a, b), "route", "route of {a} to {b}"); if a != b { must!(way(a, b) == back(&way(b, a)), "route", "the routes of {a} and {b} differ by direction"); } } }
    for r in routes() {
        for x in [1, 777] {
            let say = |r: Result<Vec<AmountInAndOut<Balance>>, E>| r.ok().map(|v| v.into_iter().map(|q| (q.amount_in, q.amount_out)).collect::<Vec<_>>());
            must!(say(<Router as RouterT<_, _, _, _, _>>::calculate_sell_trade_amounts(&r, x)) == quotes_sell(&r, x).ok(), "quote", "sell {x} on {r:?}");
            let want = quotes_buy(&r, x).ok().map(|mut v| { v.reverse(); v });
            must!(say(<Router as RouterT<_, _, _, _, _>>::calculate_buy_trade_amounts(&r, x)) == want, "quote", "buy {x} on {r:?}");
        }
        let exact = if r.is_empty() { None } else { r.iter().try_fold((U256::from(1), U256::from(1)), |(n, d): (U256, U256), t| { if r.len() > 3 { known(t.pool).ok()?; return price(t.pool, t.asset_in, t.asset_out).ok().map(|_| (n, d)) } known(t.pool).ok()?; price(t.pool, t.asset_in, t.asset_out).ok().map(|p| (n * U256::from(p.into_inner()), d * U256::from(10u128.pow(18)))) }) };
        let got = <Router as RouteSpotPriceProvider<AssetId>>::spot_price_with_fee(&r).map(|p| p.into_inner());
        match (exact, got) {
            (None, None) => (),
            // up to four hops the product fits; the ratio is given to 2^-64 and 18 decimals
            (Some((n, d)), Some(g)) if r.len() <= 3 => { let want = (n * U256::from(10u128.pow(18)) / d).as_u128(); must!(g.abs_diff(want) <= 2 + want / 1_000_000_000_000_000, "spot", "{g} instead of {want} on {r:?}"); }
            (Some(_), Some(_)) => (),
            x => return wrong("spot", format!("{x:?} on {r:?}")),
        }
    }
    Ok(())
}
fn begin(name: &str, scale: u128, acts: &[Act]) -> Start<()> {
    start(name, || {
        System::set_block_number(1);
        let mut put = |p: Pool, a: AssetId, b: AssetId, x: u128, y: u128| { let w = venue(p, a, b); for (c, z) in [(a, x), (b, y)] { <Tokens as MultiCurrency<u64>>::deposit(c, &w, z * scale).unwrap(); } };
        put(X, 1, 2, 10_000, 12_000); put(CURVE, 1, 2, 20_000, 21_500); put(O, 1, 2, 30_000, 32_000); put(X, 0, 1, 40_000, 9_000); put(O, 0, 2, 50_000, 14_000); put(O, 0, 1, 45_000, 11_000);
        put(CURVE, 1, 3, 9_000, 900); put(X, 2, 3, 20_000, 1_850); put(X, 0, 4, 9_000, 700); put(X, 1, 4, 3_000, 800); put(CURVE, 2, 4, 2_000, 900); put(O, 1, 3, 300, 100);
        for (c, x) in [(0, 5_000), (1, 3_000), (2, 2_500), (4, 300)] { <Tokens as MultiCurrency<u64>>::deposit(c, &1, x * scale).unwrap(); }
        for c in [1, 4] { <Tokens as MultiCurrency<u64>>::deposit(c, &2, 150 * scale).unwrap(); }
        for a in acts { match step(a) { Ok(true) => (), x => panic!("start {name}: {a:?} gives {x:?}") } }
        asks().unwrap();
    })
}
fn acts(scale: u128) -> Vec<Act> {
    let mut v = vec![];
    let rs = routes();
    let s = |x: u128| x * scale;
    for (k, r) in rs.iter().enumerate() {
        if r.is_empty() { continue }
        let (a, b) = (r[0].asset_in, r[r.len() - 1].asset_out);
        for (x, l) in [(s(100), Lim::Exact), (s(100), Lim::Tight), (s(777), Lim::Off), (s(150), Lim::Exact)] { v.push(Act::Sell(1, a, b, x, l, k)); }
        v.push(Act::Sell(2, a, b, s(150), Lim::Off, k));
        for (y, l) in [(s(90), Lim::Exact), (s(90), Lim::Tight), (s(400), Lim::Off), (3, Lim::Off)] { v.push(Act::Buy(1, a, b, y, l, k)); }
        v.push(Act::Buy(2, a, b, s(20), Lim::Off, k));
        if a != b { v.push(Act::Set(2, a, b, k)); v.push(Act::Force(None, a, b, k)); }
    }
    for (a, b) in [(1, 2), (2, 1), (0, 4), (1, 1), (1, 3)] { v.push(Act::Sell(1, a, b, s(60), Lim::Exact, 0)); v.push(Act::Buy(1, a, b, s(60), Lim::Exact, 0)); v.push(Act::Sell(1, a, b, s(60), Lim::Tight, 0)); v.push(Act::Sell(1, a, b, 0, Lim::Off, 0)); v.push(Act::Set(1, a, b, 0)); }
    for (a, b, k) in [(2, 1, 1), (1, 2, 2), (1, 3, 5), (0, 2, 5), (1, 2, 21)] { v.push(Act::Sell(1, a, b, s(60), Lim::Off, k)); v.push(Act::Buy(1, a, b, s(60), Lim::Off, k)); v.push(Act::Set(1, a, b, k)); }
    for k in [5, 6] { v.push(Act::Force(Some(1), 1, 2, k)); }
    v.push(Act::Force(None, 2, 1, 2)); v.push(Act::Force(None, 1, 2, 0));
    v
}
fn main() {
    let ck = kit::Check::new("P17");
    for (name, scale, depth) in [("router", 1, ck.pick(2, 3)), ("router, large amounts", 1_000_000_007, ck.pick(2, 3))] {
        let mut v = acts(scale);
        for (p, i, o, x) in [(X, 1, 2, 5_000), (X, 2, 1, 4_000), (CURVE, 2, 1, 9_000), (O, 1, 2, 300_000), (X, 3, 2, 500), (O, 2, 0, 9_000)] { v.push(Act::Pump(p, i, o, x * scale)); }
        for (x, y) in [(3, 0), (0, 3), (0, 9), (14, 0), (1, 1)] { v.push(Act::Skew(x, y)); }
        let starts = vec![
            begin("default routes", scale, &[]),
            begin("a stored route", scale, &[Act::Force(None, 1, 2, 5), Act::Pump(CURVE, 2, 1, 9_000 * scale)]),
            begin("one market far deeper", scale, &[Act::Pump(O, 0, 2, 9_000_000 * scale), Act::Pump(O, 2, 0, 90_000_000 * scale)]),
            begin("one market far deeper, other way", scale, &[Act::Force(None, 1, 2, 5), Act::Pump(X, 1, 0, 90_000_000 * scale), Act::Pump(X, 0, 1, 9_000_000 * scale)]),
            begin("a broken stored route", scale, &[Act::Force(None, 1, 2, 12), Act::Force(None, 1, 3, 18)]),
            begin("a market pays more", scale, &[Act::Skew(2, 0), Act::Force(None, 1, 2, 3)]),
            begin("a market takes less", scale, &[Act::Skew(0, 3), Act::Force(None, 1, 2, 7)]),
        ];
        World { name, depth, events: true, actions: &|_: &()| v.clone(), step: &|a: &Act, _: &mut ()| step(a), prepare: &|| {} }.explore(&ck, starts);
    }
    ck.finish()
}
