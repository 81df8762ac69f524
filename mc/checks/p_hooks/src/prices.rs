//! Prices along routes and of fee currencies: every route and every mix of known, missing, zero and extreme prices.
use super::*;
use frame_support::traits::{Contains, tokens::{Fortitude, Preservation}};
use hydradx_traits::{oracle::{AggregatedPriceOracle, NativePriceOracle, PriceOracle}, router::{AssetPair, PoolType, RouteProvider, Trade}, AccountFeeCurrency, AccountFeeCurrencyBalanceInCurrency};
use pallet_ema_oracle::OracleError;
use runtime_adapters::{price::{ConvertAmount, FeeAssetBalanceInCurrency, OraclePriceProviderUsingRoute}, AssetFeeOraclePriceProvider, OraclePriceProvider};
use serde_json::json;
use sp_core::{U256, U512};
use sp_runtime::traits::Convert;
use std::cell::RefCell;

const P: [(u128, u128); 8] = [(1, 1), (3, 2), (1, 3), (0, 1), (BIG, 1), (1, BIG), (BIG, BIG - 1), ((1 << 90) + 1, (1 << 64) + 1)];
thread_local! { static MIX: Cell<u32> = Cell::new(0); static PATH: RefCell<Vec<Trade<AssetId>>> = RefCell::new(vec![]); static FALL: Cell<Option<u128>> = Cell::new(None); static ONE: Cell<Option<(u128, u128)>> = Cell::new(None); }
fn source(s: [u8; 8]) -> u32 { match &s { b"omnipool" => 0, b"stablesw" => 1, b"hydraxyk" => 2, _ => 3 } }
fn listed(a: AssetId, b: AssetId, p: OraclePeriod, s: u32) -> Option<(u128, u128)> {
    let k = MIX.with(|m| m.get()) + a * 7 + b * 11 + s * 5 + match p { OraclePeriod::Short => 0, OraclePeriod::TenMinutes => 1, _ => 3 };
    if MIX.with(|m| m.get()) >= 12 { return Some(P[(k % 3) as usize]) }
    P.get((k % 10) as usize).copied()
}
pub struct Table;
impl AggregatedPriceOracle<AssetId, u32, EmaPrice> for Table {
    type Error = OracleError;
    fn get_price(a: AssetId, b: AssetId, p: OraclePeriod, s: [u8; 8]) -> Result<(EmaPrice, u32), OracleError> {
        if a == b { return Err(OracleError::SameAsset) }
        listed(a, b, p, source(s)).map(|x| (EmaPrice::new(x.0, x.1), 1)).ok_or(OracleError::NotPresent)
    }
    fn get_price_weight() -> Weight { Weight::zero() }
}
type Routes = OraclePriceProvider<AssetId, Table, Hub>;
/// the greater of both to at most 128 bits; nothing becomes zero by it
fn fit(n: U512, d: U512) -> (u128, u128) {
    let (mut n2, mut d2) = (n, d);
    let lim = U512::from(1) << 128;
    while n2 >= lim || d2 >= lim { n2 = n2 / 2; d2 = d2 / 2; }
    if d2 != d || n2 != n { if !n.is_zero() && n2.is_zero() { n2 = U512::from(1) } if d2.is_zero() { d2 = U512::from(1) } }
    (n2.low_u128(), d2.low_u128())
}
fn want(route: &[Trade<AssetId>], p: OraclePeriod) -> Option<(u128, u128)> {
    let one = |a: AssetId, b: AssetId, s: u32| if a == b { Some((1, 1)) } else { listed(a, b, p, s) };
    let through = |a, m, b, s| { let (x, y) = (one(a, m, s)?, one(m, b, s)?); Some(fit(U512::from(x.0) * U512::from(y.0), U512::from(x.1) * U512::from(y.1))) };
    if route.is_empty() { return None }
    let (mut n, mut d) = (vec![], vec![]);
    for t in route {
        let (a, b) = (t.asset_in, t.asset_out);
        let x = match t.pool { PoolType::Omnipool => through(a, HUB, b, 0)?, PoolType::Stableswap(s) => through(a, s, b, 1)?, PoolType::XYK => one(a, b, 2)?, _ => return None };
        n.push(x.0); d.push(x.1);
    }
    let mul = |v: &[u128]| v.iter().try_fold(U512::from(1), |acc, x| acc.checked_mul(U512::from(*x)));
    Some(fit(mul(&n)?, mul(&d)?))
}
const POOLS: [PoolType<AssetId>; 5] = [PoolType::Omnipool, PoolType::Stableswap(10), PoolType::Stableswap(2), PoolType::XYK, PoolType::LBP];
pub struct Path;
impl RouteProvider<AssetId> for Path { fn get_route(p: AssetPair<AssetId>) -> Vec<Trade<AssetId>> { PATH.with(|x| { let mut v = x.borrow().clone(); if let Some(t) = v.first_mut() { t.asset_in = p.asset_in } if let Some(t) = v.last_mut() { t.asset_out = p.asset_out } v }) } }
pub struct Fall;
impl GetByKey<AssetId, Option<FixedU128>> for Fall { fn get(a: &AssetId) -> Option<FixedU128> { if *a == 3 { FALL.with(|f| f.get()).map(FixedU128::from_inner) } else { None } } }
pub struct Taken;
impl Contains<AssetId> for Taken { fn contains(a: &AssetId) -> bool { *a == 2 || *a == 3 } }
pub struct Single;
impl PriceProvider<AssetId> for Single { type Price = EmaPrice; fn get_price(a: AssetId, b: AssetId) -> Option<EmaPrice> { if (a, b) != (3, 2) { return Some(EmaPrice::new(77, 1)) } ONE.with(|p| p.get()).map(|p| EmaPrice::new(p.0, p.1)) } }
pub struct Chosen;
impl AccountFeeCurrency<AccountId32> for Chosen { type AssetId = AssetId; fn get(a: &AccountId32) -> AssetId { if *a == acc(1) { 2 } else { 3 } } }

pub fn check(ck: &kit::Check) {
    let mut n = 0u64;
    let (longest, mixes) = (ck.pick(3, 4), 15);
    let assets = [0, HUB, 2, 10];
    let mut routes: Vec<Vec<Trade<AssetId>>> = vec![vec![]];
    let mut last = routes.clone();
    for len in 0..longest {
        let mut next = vec![];
        for r in &last { for pool in POOLS { for i in assets { for o in assets {
            if let Some(t) = r.last() { if t.asset_out != i || len > 1 && o != assets[(len + i as usize) % 4] { continue } }
            let mut v = r.clone(); v.push(Trade { pool, asset_in: i, asset_out: o }); next.push(v);
        } } } }
        routes.extend(next.iter().cloned()); last = next;
    }
    // long ones: the product leaves 512 bits
    for k in [4usize, 5, 9] { for pool in POOLS { for o in assets { routes.push((0..k).map(|j| Trade { pool, asset_in: if j % 2 == 0 { 3 } else { o }, asset_out: if j % 2 == 0 { o } else { 3 } }).collect()); } } }
    let eq = |got: Option<EmaPrice>, want: Option<(u128, u128)>| got.map(|p| (p.n, p.d)) == want.map(|w| { let p = EmaPrice::new(w.0, w.1); (p.n, p.d) });
    'all: for mix in 0..mixes {
        MIX.with(|m| m.set(mix));
        for r in &routes { for p in [OraclePeriod::Short, OraclePeriod::TenMinutes] {
            if ck.stop() || ck.out_of_time() { break 'all }
            n += 1;
            let (got, w) = (Routes::price(r, p), want(r, p));
            if !eq(got, w) { ck.violation("route-price", format!("[prices; mix {mix}] price along {r:?} for {p:?} is {got:?}, not {w:?}"), json!({ "mix": mix })); }
            if p == OraclePeriod::Short && r.len() <= 2 {
                PATH.with(|x| *x.borrow_mut() = r.clone());
                for c in [0u32, 2, 3, 10] {
                    n += 1;
                    let route = Path::get_route(AssetPair::new(c, HDX));
                    let w = want(&route, p);
                    for fall in [None, Some(0), Some(7), Some(BIG)] {
                        FALL.with(|f| f.set(fall));
                        let got = <AssetFeeOraclePriceProvider<Hdx, Taken, Path, Routes, Fall, Short> as NativePriceOracle<AssetId, EmaPrice>>::price(c);
                        let w = if c == HDX { Some((1, 1)) } else if c == 10 { None } else { w.or(if c == 3 { fall.map(|x| (x, E18)) } else { None }) };
                        if !eq(got, w) { ck.violation("fee-price", format!("[prices; mix {mix}] fee price of {c} along {route:?} with fallback {fall:?} is {got:?}, not {w:?}"), json!({ "mix": mix })); }
                    }
                    let got = OraclePriceProviderUsingRoute::<Path, Routes, Short>::get_price(c, HDX);
                    if !eq(got, w) { ck.violation("route-provider", format!("[prices; mix {mix}] price of {c} along {route:?} is {got:?}, not {w:?}"), json!({ "mix": mix })); }
                }
            }
        } }
    }
    // amounts in another currency: rounded up, at the price of the one in the other
    let amounts = [0u128, 1, 2, 3, 7, 100, 999_999_999_999, E18 + 1, 1 << 64, (1 << 100) + 3, BIG / 3, BIG / 2 + 1, BIG - 1, BIG];
    for price in P.iter().chain(&[(1, 0), (0, 0), (5, 5), (2, 7), (1_000_001, 999_983)]).map(|x| Some(*x)).chain([None]) {
        ONE.with(|x| x.set(price));
        for x in amounts {
            for (f, t) in [(2u32, 3u32), (2, 2), (3, 3)] {
                n += 1;
                let got = ConvertAmount::<Single>::convert((f, t, x));
                let w = if f == t { Some((x, (1, 1))) } else { price.map(|p| { let q = EmaPrice::new(p.0, p.1); (q.n, q.d) }).and_then(|p| { let (a, d) = (U256::from(x) * U256::from(p.0), U256::from(p.1)); if d.is_zero() { return None } u128::try_from((a + d - 1) / d).ok().map(|y| (y, p)) }) };
                if got.clone().map(|g| (g.0, (g.1.n, g.1.d))) != w { ck.violation("convert", format!("[prices] {x} of {f} in {t} at {price:?} is {got:?}, not {w:?}"), json!({ "x": x.to_string() })); }
            }
        }
        // what an account has of its fee currency, in another: what it can spend and still live
        let s = start("fees", || {
            for (a, x) in [(2, 700u128), (3, 40)] { for who in [1u8, 2] { <Tokens as MultiCurrency<AccountId32>>::deposit(a, &acc(who), x * who as u128).unwrap(); } }
            <Tokens as orml_traits::MultiLockableCurrency<AccountId32>>::set_lock(*b"lock0000", 2, &acc(1), 300).unwrap();
        });
        sp_io::swap_ext(sp_io::Ext::from_map(s.map));
        for who in [1u8, 2, 9] { for to in [2u32, 3] {
            n += 1;
            type F = FeeAssetBalanceInCurrency<Rt, ConvertAmount<Single>, Chosen, Tokens>;
            let got = <F as AccountFeeCurrencyBalanceInCurrency<AssetId, AccountId32>>::get_balance_in_currency(to, &acc(who));
            let from = Chosen::get(&acc(who));
            let has = <Tokens as frame_support::traits::fungibles::Inspect<AccountId32>>::reducible_balance(from, &acc(who), Preservation::Preserve, Fortitude::Polite);
            let spend = match who { 1 => 400, 2 => 80, _ => 0 };
            let w = if from == to { has } else { ConvertAmount::<Single>::convert((from, to, has)).map_or(0, |x| x.0) };
            let reads = <<Rt as frame_system::Config>::DbWeight as frame_support::traits::Get<frame_support::weights::RuntimeDbWeight>>::get().reads(2) + if from == to { Weight::zero() } else { <Ema as AggregatedPriceOracle<AssetId, u64, EmaPrice>>::get_price_weight() * 2 };
            if got.0 != w || has != spend || got.1 != reads { ck.violation("fee-balance", format!("[prices] account {who} has {got:?} in {to}, not {w} ({has} spendable, {spend} expected; {reads:?})"), json!({ "who": who })); }
        } }
        sp_io::swap_ext(sp_io::Ext::default());
    }
    ck.add_states(n); ck.add_transitions(n); ck.add_traces(n);
    ck.section("prices", json!({ "routes": routes.len(), "points": n }));
}
