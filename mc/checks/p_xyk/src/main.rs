//! P01: XYK pools, on the real pallet-xyk, pallet-asset-registry and the stand-in tokens.
use frame_support::{parameter_types, traits::{ConstU128, ConstU32, Nothing}, weights::Weight};
use hydra_dx_math::ratio::Ratio;
use hydradx_traits::{pools::DustRemovalAccountWhitelist, router::{PoolType, TradeExecution}, AssetPairAccountIdFor, OnCreatePoolHandler, OnLiquidityChangedHandler, OnTradeHandler, CanCreatePool, AMM};
use orml_traits::{parameter_type_with_key, MultiCurrency};
use sp_core::U256;
use sp_runtime::DispatchError;
use std::cell::RefCell;
use std::collections::BTreeSet;
use world::*;

frame_support::construct_runtime!(
    pub enum Rt { System: frame_system, Tokens: orml_tokens, AssetRegistry: pallet_asset_registry, XYK: pallet_xyk }
);
world::system!(Rt, ());
parameter_type_with_key! { pub Eds: |_a: AssetId| -> Balance { 1 }; }
world::tokens!(Rt, Eds, Nothing, ());
parameter_types! {
    pub const Fee: (u32, u32) = (3, 100);
    pub const Discounted: (u32, u32) = (1, 100);
    pub const Src: hydradx_traits::Source = *b"hydraxyk";
    #[derive(PartialEq, Debug)]
    pub RegLimit: u32 = 40;
    #[derive(PartialEq, Debug)]
    pub RegMin: u32 = 2;
}
impl pallet_asset_registry::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type RegistryOrigin = frame_system::EnsureRoot<u64>;
    type Currency = Tokens;
    type UpdateOrigin = frame_system::EnsureRoot<u64>;
    type AssetId = AssetId;
    type AssetNativeLocation = u8;
    type StringLimit = RegLimit;
    type MinStringLimit = RegMin;
    type SequentialIdStartAt = ConstU32<1000>;
    type RegExternalWeightMultiplier = frame_support::traits::ConstU64<1>;
    type WeightInfo = ();
}
pub struct PairAcc;
impl AssetPairAccountIdFor<AssetId, u64> for PairAcc {
    fn from_assets(a: AssetId, b: AssetId, _: &str) -> u64 { pool_of(a, b) }
}
const NATIVE: AssetId = 1;
const MIN_TRADE: u128 = 2;
const MIN_LIQ: u128 = 10;
const RATIO: u128 = 3;
fn pool_of(a: AssetId, b: AssetId) -> u64 { 100 + (a.min(b) * 10 + a.max(b)) as u64 }
pub struct NoFour;
impl CanCreatePool<AssetId> for NoFour { fn can_create(a: AssetId, b: AssetId) -> bool { a != 4 && b != 4 } }
#[derive(Clone, Debug, PartialEq)]
enum Told { Create(AssetId, AssetId), Trade(AssetId, AssetId, u128, u128, u128, u128, (u128, u128)), Liq(AssetId, AssetId, u128, u128, u128, u128, (u128, u128)) }
thread_local! {
    static TOLD: RefCell<Vec<Told>> = RefCell::new(vec![]);
    static WHITE: RefCell<BTreeSet<(bool, u64)>> = RefCell::new(BTreeSet::new());
}
fn told(t: Told) { TOLD.with(|x| x.borrow_mut().push(t)) }
pub struct Handler;
impl OnCreatePoolHandler<AssetId> for Handler { fn on_create_pool(a: AssetId, b: AssetId) -> sp_runtime::DispatchResult { told(Told::Create(a, b)); Ok(()) } }
impl OnTradeHandler<AssetId, u128, Ratio> for Handler {
    fn on_trade(_: hydradx_traits::Source, a: AssetId, b: AssetId, x: u128, y: u128, l: u128, m: u128, p: Ratio) -> Result<Weight, (Weight, DispatchError)> { told(Told::Trade(a, b, x, y, l, m, (p.n, p.d))); Ok(Weight::zero()) }
    fn on_trade_weight() -> Weight { Weight::zero() }
}
impl OnLiquidityChangedHandler<AssetId, u128, Ratio> for Handler {
    fn on_liquidity_changed(_: hydradx_traits::Source, a: AssetId, b: AssetId, x: u128, y: u128, l: u128, m: u128, p: Ratio) -> Result<Weight, (Weight, DispatchError)> { told(Told::Liq(a, b, x, y, l, m, (p.n, p.d))); Ok(Weight::zero()) }
    fn on_liquidity_changed_weight() -> Weight { Weight::zero() }
}
pub struct White;
impl DustRemovalAccountWhitelist<u64> for White {
    type Error = DispatchError;
    fn add_account(a: &u64) -> Result<(), DispatchError> { WHITE.with(|w| w.borrow_mut().insert((true, *a))); Ok(()) }
    fn remove_account(a: &u64) -> Result<(), DispatchError> { WHITE.with(|w| w.borrow_mut().insert((false, *a))); Ok(()) }
}
impl pallet_xyk::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type AssetRegistry = AssetRegistry;
    type AssetPairAccountId = PairAcc;
    type Currency = Tokens;
    type NativeAssetId = ConstU32<NATIVE>;
    type WeightInfo = ();
    type GetExchangeFee = Fee;
    type MinTradingLimit = ConstU128<MIN_TRADE>;
    type MinPoolLiquidity = ConstU128<MIN_LIQ>;
    type MaxInRatio = ConstU128<RATIO>;
    type MaxOutRatio = ConstU128<RATIO>;
    type CanCreatePool = NoFour;
    type AMMHandler = Handler;
    type DiscountedFee = Discounted;
    type NonDustableWhitelistHandler = White;
    type OracleSource = Src;
}

/// How the amount and the limit of a call are chosen from the state it meets.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Amt { N(u128), Part(u128), PartPlus1(u128), All, AllPlus1 }
#[derive(Clone, Copy, Debug, PartialEq)]
enum Lim { Open, Exact, Tight }
#[derive(Clone, Debug)]
enum Act {
    Create(u64, AssetId, u128, AssetId, u128),
    Add(u64, AssetId, AssetId, Amt, Lim),
    Remove(u64, AssetId, AssetId, Amt),
    Sell(u64, AssetId, AssetId, Amt, Lim, bool),
    Buy(u64, AssetId, AssetId, Amt, Lim, bool),
    Donate(u64, AssetId, AssetId, u128),
    GiveShares(u64, u64, u128),
}
const WHO: [u64; 3] = [1, 2, 3];
const ASSETS: [AssetId; 4] = [1, 2, 3, 4];
const PAIRS: [(AssetId, AssetId); 3] = [(1, 2), (1, 3), (2, 3)];
fn bal(a: AssetId, w: u64) -> u128 { Tokens::free_balance(a, &w) }
fn exists(a: AssetId, b: AssetId) -> bool { a != b && XYK::exists(pallet_xyk::types::AssetPair::new(a, b)) }
fn md(a: u128, b: u128, c: u128, up: bool) -> Option<u128> {
    if c == 0 { return None }
    let (q, r) = (U256::from(a) * U256::from(b)).div_mod(U256::from(c));
    let q = if up && !r.is_zero() { q + 1 } else { q };
    (q <= U256::from(u128::MAX)).then(|| q.as_u128())
}
fn amt(x: Amt, of: u128) -> u128 { match x { Amt::N(n) => n, Amt::Part(d) => of / d, Amt::PartPlus1(d) => of / d + 1, Amt::All => of, Amt::AllPlus1 => of + 1 } }
/// Everything the property speaks about.
#[derive(Clone, PartialEq, Debug)]
struct Seen { bal: Vec<Vec<u128>>, issuance: Vec<u128>, pools: Vec<Option<(AssetId, u128, u128, u128)>>, shares: Vec<Vec<u128>> }
fn see() -> Seen {
    let all: Vec<u64> = WHO.iter().copied().chain(PAIRS.iter().map(|(a, b)| pool_of(*a, *b))).collect();
    Seen {
        bal: all.iter().map(|w| ASSETS.iter().map(|a| bal(*a, *w)).collect()).collect(),
        issuance: ASSETS.iter().map(|a| Tokens::total_issuance(*a)).collect(),
        pools: PAIRS.iter().map(|(a, b)| { let p = pool_of(*a, *b); exists(*a, *b).then(|| (XYK::share_token(p), XYK::total_liquidity(p), bal(*a, p), bal(*b, p))) }).collect(),
        shares: PAIRS.iter().map(|(a, b)| { let s = XYK::share_token(pool_of(*a, *b)); WHO.iter().map(|w| if s == 0 { 0 } else { bal(s, *w) }).collect() }).collect(),
    }
}
fn pix(a: AssetId, b: AssetId) -> usize { PAIRS.iter().position(|p| *p == (a.min(b), a.max(b))).unwrap() }

fn state_ok() -> Result<(), Wrong> {
    for (a, b) in PAIRS {
        let p = pool_of(a, b);
        let on = exists(a, b);
        must!(XYK::pool_assets(p).is_some() == on, "record", "pool {a}/{b}: share token record {on} but asset record {:?}", XYK::pool_assets(p));
        if !on { must!(XYK::total_liquidity(p) == 0, "record", "pool {a}/{b} is gone but still counts {} shares", XYK::total_liquidity(p)); continue; }
        let (x, y) = XYK::pool_assets(p).unwrap();
        must!((x.min(y), x.max(y)) == (a, b), "record", "pool {a}/{b} records assets {x}/{y}");
        let s = XYK::share_token(p);
        let sum: u128 = WHO.iter().map(|w| bal(s, *w)).sum();
        let total = XYK::total_liquidity(p);
        must!(total == sum && total == Tokens::total_issuance(s), "shares", "pool {a}/{b} counts {total} shares, holders have {sum}, issued {}", Tokens::total_issuance(s));
        must!(total > 0, "shares", "pool {a}/{b} exists without shares");
        must!(bal(a, p) > 0 && bal(b, p) > 0, "reserves", "pool {a}/{b} with {total} shares has reserves {}/{}", bal(a, p), bal(b, p));
        must!(XYK::get_pool_balances(p).map(|v| v.iter().map(|(_, x)| *x).collect::<Vec<_>>()) == Some(vec![bal(x, p), bal(y, p)]), "reported", "get_pool_balances of {a}/{b} is not the reserves");
    }
    Ok(())
}

fn step(act: &Act) -> Result<bool, Wrong> {
    TOLD.with(|t| t.borrow_mut().clear());
    WHITE.with(|t| t.borrow_mut().clear());
    let s0 = see();
    let ok = match act.clone() {
        Act::Create(who, a, x, b, y) => {
            let good = a != 4 && b != 4 && a != b && x >= MIN_LIQ && y >= MIN_LIQ && !exists(a, b) && bal(a, who) >= x && bal(b, who) >= y;
            let donated = if a == b { (0, 0) } else { (bal(a, pool_of(a, b)), bal(b, pool_of(a, b))) };
            let r = call(|| XYK::create_pool(signed(who), a, x, b, y));
            must!(r.is_ok() == good, "create", "create_pool gives {r:?}");
            if good {
                let p = pool_of(a, b);
                let s = XYK::share_token(p);
                must!(exists(a, b) && XYK::total_liquidity(p) == if a < b { x } else { y } && bal(s, who) == XYK::total_liquidity(p), "create", "initial shares {} for {x}/{y}", bal(s, who));
                must!(bal(a, p) == donated.0 + x && bal(b, p) == donated.1 + y, "create", "reserves {}/{} after creating with {x}/{y}", bal(a, p), bal(b, p));
                must!(WHITE.with(|w| w.borrow().contains(&(true, p))), "create", "the pool account was not exempted from dusting");
                let s1 = see();
                let wi = WHO.iter().position(|w| *w == who).unwrap();
                must!(s0.bal[wi][a as usize - 1] - s1.bal[wi][a as usize - 1] == x && s0.bal[wi][b as usize - 1] - s1.bal[wi][b as usize - 1] == y, "create", "creator did not pay {x}/{y}");
                must!(s0.issuance == s1.issuance, "issuance", "creating a pool changed issuance");
            }
            good
        }
        Act::Add(who, a, b, x, lim) => {
            let p = pool_of(a, b);
            let (ra, rb, s) = (bal(a, p), bal(b, p), XYK::total_liquidity(p));
            let x = amt(x, ra.max(1));
            let need = if ra == 0 { 0 } else { md(x, rb, ra, false).unwrap().saturating_add(1) };
            let max = match lim { Lim::Open => u128::MAX, Lim::Exact => need, Lim::Tight => need.saturating_sub(1) };
            let (a0, b0) = (bal(a, who), bal(b, who));
            let st = XYK::share_token(p);
            let sh0 = if st == 0 { 0 } else { bal(st, who) };
            let mint = if ra == 0 { 0 } else { md(x, s, ra, false).unwrap() };
            let r = call(|| XYK::add_liquidity(signed(who), a, b, x, max));
            if r.is_ok() {
                let (ra1, rb1, s1) = (bal(a, p), bal(b, p), XYK::total_liquidity(p));
                let (pa, pb, got) = (a0 - bal(a, who), b0 - bal(b, who), bal(st, who) - sh0);
                must!(pa == x && ra1 == ra + pa && rb1 == rb + pb, "add", "paid {pa}/{pb}, reserves {ra}/{rb} -> {ra1}/{rb1}");
                must!(pb <= max, "limit", "paid {pb} of asset {b} with limit {max}");
                must!(s1 == s + got && got > 0, "add", "minted {got}, total {s} -> {s1}");
                // nobody's share is diluted
                must!(U256::from(ra1) * U256::from(s) >= U256::from(ra) * U256::from(s1), "dilution", "asset {a} per share fell: {ra}/{s} -> {ra1}/{s1}");
                must!(U256::from(rb1) * U256::from(s) >= U256::from(rb) * U256::from(s1), "dilution", "asset {b} per share fell: {rb}/{s} -> {rb1}/{s1}");
                // and the provider gets what the deposit is worth, to one unit
                must!(got == mint && (pb == need || pb + 1 == need), "add", "{x} brought {got} shares for {pb}; expected {mint} for {need}");
                must!(sh0 + got >= MIN_LIQ, "minimum", "holder ends with {} shares", sh0 + got);
                must!(TOLD.with(|t| *t.borrow() == vec![Told::Liq(a, b, pa, pb, ra1, rb1, (ra1, rb1))]), "oracle", "told {:?} of {pa}/{pb} added", TOLD.with(|t| t.borrow().clone()));
            }
            let good = exists(a, b) && x >= MIN_TRADE && max > 0 && a0 >= x && b0 >= need && need <= max && mint > 0 && sh0 + mint >= MIN_LIQ;
            must!(r.is_ok() == good, "add", "add_liquidity of {x} with limit {max} (needs {need}, mints {mint}) gives {r:?}");
            good
        }
        Act::Remove(who, a, b, x) => {
            let p = pool_of(a, b);
            let (ra, rb, s) = (bal(a, p), bal(b, p), XYK::total_liquidity(p));
            let st = XYK::share_token(p);
            let sh0 = if st == 0 { 0 } else { bal(st, who) };
            let x = amt(x, sh0);
            let (a0, b0) = (bal(a, who), bal(b, who));
            let good = x > 0 && exists(a, b) && sh0 >= x && (sh0 - x >= MIN_LIQ || sh0 == x);
            let r = call(|| XYK::remove_liquidity(signed(who), a, b, x));
            must!(r.is_ok() == good, "remove", "removing {x} of {sh0} shares ({s} in all) gives {r:?}");
            if good {
                let (ra1, rb1, s1) = (bal(a, p), bal(b, p), XYK::total_liquidity(p));
                let (ga, gb) = (bal(a, who) - a0, bal(b, who) - b0);
                must!(ra1 + ga == ra && rb1 + gb == rb && s1 + x == s && bal(st, who) + x == sh0, "remove", "got {ga}/{gb} for {x} of {s}; reserves {ra}/{rb} -> {ra1}/{rb1}, shares -> {s1}");
                must!(Some(ga) == md(ra, x, s, false) && Some(gb) == md(rb, x, s, false), "remove", "{x} of {s} shares of {ra}/{rb} paid {ga}/{gb}");
                must!(U256::from(ra1) * U256::from(s) >= U256::from(ra) * U256::from(s1) && U256::from(rb1) * U256::from(s) >= U256::from(rb) * U256::from(s1), "dilution", "what a share is worth fell: {ra}/{rb}/{s} -> {ra1}/{rb1}/{s1}");
                must!(exists(a, b) == (s1 > 0), "destroy", "pool with {s1} shares left: exists = {}", exists(a, b));
                if s1 == 0 { must!(ra1 == 0 && rb1 == 0 && WHITE.with(|w| w.borrow().contains(&(false, p))), "destroy", "the last provider left {ra1}/{rb1} behind, or the account stays exempt"); }
                must!(TOLD.with(|t| *t.borrow() == vec![Told::Liq(a, b, ga, gb, ra1, rb1, if rb1 == 0 { (0, 1) } else { (ra1, rb1) })]), "oracle", "told {:?} of {ga}/{gb} removed", TOLD.with(|t| t.borrow().clone()));
            }
            good
        }
        Act::Sell(who, i, o, x, lim, disc) => {
            let p = pool_of(i, o);
            let (ri, ro) = (bal(i, p), bal(o, p));
            let x = amt(x, ri);
            let gross = if ri + x == 0 { 0 } else { md(ro, x, ri + x, false).unwrap() };
            let fee = gross / 100 * if disc { 1 } else { 3 };
            let net = gross - fee;
            let min = match lim { Lim::Open => 0, Lim::Exact => net, Lim::Tight => net + 1 };
            let (i0, o0, n0, niss) = (bal(i, who), bal(o, who), bal(NATIVE, who), Tokens::total_issuance(NATIVE));
            let np = if disc && i != NATIVE { pool_of(i, NATIVE) } else { 0 };
            let dfee = if np != 0 && exists(i, NATIVE) { md(bal(NATIVE, np), fee, bal(i, np), false).unwrap_or(0) } else { 0 };
            let quote = dry(|| XYK::calculate_sell(PoolType::XYK, i, o, x));
            let r = call(|| XYK::sell(signed(who), i, o, x, min, disc));
            let good = exists(i, o) && x >= MIN_TRADE && i0 >= x && (!disc || (i != NATIVE && exists(i, NATIVE))) && x <= ri / RATIO && gross <= ro / RATIO && min <= net && gross < ro
                && (!disc || n0 >= dfee);
            must!(r.is_ok() == good, "sell", "selling {x} into {ri}/{ro} for {net} (limit {min}) gives {r:?}");
            if good {
                let burnt = niss - Tokens::total_issuance(NATIVE);
                must!(burnt == if disc { dfee } else { 0 }, "discount", "burnt {burnt} native, the discount costs {dfee}");
                let paid = i0 - bal(i, who) - if i == NATIVE { burnt } else { 0 };
                let got = bal(o, who) + if o == NATIVE { burnt } else { 0 } - o0;
                must!(paid == x && bal(i, p) == ri + x && bal(o, p) + got == ro, "sell", "paid {paid}, got {got}; reserves {ri}/{ro} -> {}/{}", bal(i, p), bal(o, p));
                must!(got >= min, "limit", "got {got}, limit {min}");
                must!(U256::from(bal(i, p)) * U256::from(bal(o, p)) >= U256::from(ri) * U256::from(ro), "product", "{ri}*{ro} -> {}*{}", bal(i, p), bal(o, p));
                must!(got == net, "sell", "{x} into {ri}/{ro} paid {got}, expected {net} (fee {fee})");
                if !disc { must!(matches!(quote, Ok(q) if q == got), "quote", "quoted {quote:?}, got {got}"); }
                must!(TOLD.with(|t| *t.borrow() == vec![Told::Trade(i, o, paid, got, bal(i, p), bal(o, p), (bal(i, p), bal(o, p)))]), "oracle_sell", "told {:?} of {paid} sold for {got}", TOLD.with(|t| t.borrow().clone()));
            }
            good
        }
        Act::Buy(who, i, o, x, lim, disc) => {
            let p = pool_of(i, o);
            let (ri, ro) = (bal(i, p), bal(o, p));
            let x = amt(x, ro);
            let price = if x >= ro { u128::MAX } else { md(ri, x, ro - x, false).unwrap() + 1 };
            let fee = price / 100 * if disc { 1 } else { 3 };
            let cost = price.saturating_add(fee);
            let max = match lim { Lim::Open => u128::MAX, Lim::Exact => cost, Lim::Tight => cost - 1 };
            let (i0, o0, n0, niss) = (bal(i, who), bal(o, who), bal(NATIVE, who), Tokens::total_issuance(NATIVE));
            let np = if disc && o != NATIVE { pool_of(o, NATIVE) } else { 0 };
            let dfee = if np != 0 && exists(o, NATIVE) { md(bal(NATIVE, np), fee, bal(o, np), false).unwrap_or(0) } else { 0 };
            let quote = dry(|| XYK::calculate_buy(PoolType::XYK, i, o, x));
            let r = call(|| XYK::buy(signed(who), o, i, x, max, disc));
            let native_needed = if disc { dfee } else { 0 };
            let can_pay = if i == NATIVE { i0 >= cost.saturating_add(native_needed) } else { i0 >= cost && n0 >= native_needed };
            let good = exists(i, o) && x >= MIN_TRADE && x < ro && x <= ro / RATIO && price <= ri / RATIO && (!disc || (o != NATIVE && exists(o, NATIVE))) && cost <= max && can_pay;
            must!(r.is_ok() == good, "buy", "buying {x} from {ri}/{ro} for {cost} (limit {max}) gives {r:?}");
            if good {
                let burnt = niss - Tokens::total_issuance(NATIVE);
                must!(burnt == native_needed, "discount", "burnt {burnt} native, the discount costs {dfee}");
                let paid = i0 - bal(i, who) - if i == NATIVE { burnt } else { 0 };
                let got = bal(o, who) + if o == NATIVE { burnt } else { 0 } - o0;
                must!(got == x && bal(i, p) == ri + paid && bal(o, p) + got == ro, "buy", "paid {paid}, got {got}; reserves {ri}/{ro} -> {}/{}", bal(i, p), bal(o, p));
                must!(paid <= max, "limit", "paid {paid}, limit {max}");
                must!(U256::from(bal(i, p)) * U256::from(bal(o, p)) >= U256::from(ri) * U256::from(ro), "product", "{ri}*{ro} -> {}*{}", bal(i, p), bal(o, p));
                must!(paid == cost, "buy", "{x} from {ri}/{ro} cost {paid}, expected {cost} (fee {fee})");
                if !disc { must!(matches!(quote, Ok(q) if q == paid), "quote", "quoted {quote:?}, paid {paid}"); }
                must!(TOLD.with(|t| *t.borrow() == vec![Told::Trade(i, o, paid, got, bal(i, p), bal(o, p), (bal(i, p), bal(o, p)))]), "oracle_buy", "told {:?} of {got} bought for {paid}", TOLD.with(|t| t.borrow().clone()));
            }
            good
        }
        Act::Donate(who, a, b, x) => call(|| <Tokens as MultiCurrency<u64>>::transfer(a, &who, &pool_of(a, b), x)).is_ok(),
        Act::GiveShares(f, t, x) => { let s = XYK::share_token(pool_of(1, 2)); s != 0 && call(|| <Tokens as MultiCurrency<u64>>::transfer(s, &f, &t, x)).is_ok() }
    };
    // only the parties named by the call, and only the pool named by it, are touched
    let s1 = see();
    let (who, pool) = match act {
        Act::Create(w, a, _, b, _) | Act::Add(w, a, b, ..) | Act::Remove(w, a, b, _) | Act::Sell(w, a, b, ..) | Act::Buy(w, a, b, ..) | Act::Donate(w, a, b, _) => (vec![*w], (*a, *b)),
        Act::GiveShares(f, t, _) => (vec![*f, *t], (1, 2)),
    };
    for (k, w) in WHO.iter().enumerate() { if !who.contains(w) { must!(s0.bal[k] == s1.bal[k] && s0.shares.iter().zip(&s1.shares).all(|(x, y)| x[k] == y[k] || y.iter().all(|z| *z == 0)), "bystander", "account {w} was touched: {:?} -> {:?}", s0.bal[k], s1.bal[k]); } }
    for (k, (a, b)) in PAIRS.iter().enumerate() { if pool.0 != pool.1 && pool.0 < 4 && pool.1 < 4 && k != pix(pool.0, pool.1) { must!(s0.pools[k] == s1.pools[k], "bystander", "pool {a}/{b} was touched: {:?} -> {:?}", s0.pools[k], s1.pools[k]); } }
    for (k, a) in ASSETS.iter().enumerate() { if *a != NATIVE { must!(s0.issuance[k] == s1.issuance[k], "issuance", "issuance of {a}: {} -> {}", s0.issuance[k], s1.issuance[k]); } }
    if !ok { must!(s0 == s1, "refused", "a refused call changed something"); }
    state_ok()?;
    Ok(ok)
}

fn world_start(name: &str, pools: &[(AssetId, u128, AssetId, u128)], funds: u128) -> Start<()> {
    start(name, || {
        for w in WHO { for a in ASSETS { let _ = <Tokens as MultiCurrency<u64>>::deposit(a, &w, if w == 3 { 40 } else { funds }); } }
        for (a, x, b, y) in pools { call(|| XYK::create_pool(signed(1), *a, *x, *b, *y)).expect("start pool"); }
    })
}

fn main() {
    let ck = kit::Check::new("P01");
    let small = vec![
        world_start("empty", &[], 400),
        world_start("one pool 30/70", &[(1, 30, 2, 70)], 400),
        world_start("one pool 200/11", &[(2, 200, 1, 11)], 4000),
        world_start("three pools", &[(1, 60, 2, 100), (1, 90, 3, 300), (3, 500, 2, 400)], 3000),
    ];
    let acts = |_: &()| {
        let mut v = vec![];
        for w in [1, 2] {
            for (a, x, b, y) in [(1, 10, 2, 9), (1, 10, 2, 31), (2, 25, 1, 17), (2, 50, 3, 60), (1, 20, 4, 20), (2, 20, 2, 20)] { v.push(Act::Create(w, a, x, b, y)); }
            for (a, b) in [(1, 2), (2, 1), (3, 2)] {
                for x in [Amt::N(1), Amt::N(3), Amt::Part(2), Amt::PartPlus1(1)] { v.push(Act::Add(w, a, b, x, Lim::Exact)); }
                v.push(Act::Add(w, a, b, Amt::Part(2), Lim::Tight));
            }
            for (a, b) in [(1, 2), (3, 2)] { for x in [Amt::N(1), Amt::Part(2), Amt::All, Amt::AllPlus1] { v.push(Act::Remove(w, a, b, x)); } }
        }
        for w in [2, 3] {
            for (i, o) in [(1, 2), (2, 1), (2, 3)] {
                for d in [false, true] {
                    for x in [Amt::N(1), Amt::N(2), Amt::Part(5), Amt::Part(3), Amt::PartPlus1(3)] { v.push(Act::Sell(w, i, o, x, Lim::Exact, d)); }
                    v.push(Act::Sell(w, i, o, Amt::Part(5), Lim::Tight, d));
                    for x in [Amt::N(1), Amt::N(2), Amt::Part(5), Amt::Part(4), Amt::PartPlus1(3)] { v.push(Act::Buy(w, i, o, x, Lim::Exact, d)); }
                    v.push(Act::Buy(w, i, o, Amt::Part(5), Lim::Tight, d));
                }
            }
        }
        for x in [1, 7] { v.push(Act::Donate(2, 1, 2, x)); v.push(Act::Donate(2, 2, 1, x)); }
        v.push(Act::GiveShares(1, 2, 5));
        v.push(Act::GiveShares(2, 3, 3));
        v
    };
    World { name: "small", depth: ck.pick(3, 4), events: false, actions: &acts, step: &|a: &Act, _: &mut ()| step(a), prepare: &|| {} }.explore(&ck, small);
    // amounts of the size the chain really sees
    const U: u128 = 1_000_000_000_000;
    let big = vec![world_start("amounts of 10^18", &[(1, 2_000_003 * U + 7, 2, 31 * U + 5), (1, 77 * U, 3, 1_000_000 * U)], 100_000_000 * U), world_start("amounts of 10^26", &[(1, 1 << 87, 2, (1 << 84) + 1)], 1 << 95)];
    let acts = |_: &()| {
        let mut v = vec![];
        for (a, b) in [(1, 2), (2, 1)] {
            for x in [Amt::N(17), Amt::Part(3), Amt::PartPlus1(7)] { v.push(Act::Add(2, a, b, x, Lim::Exact)); }
            for x in [Amt::N(3), Amt::Part(2), Amt::All] { v.push(Act::Remove(1, a, b, x)); v.push(Act::Remove(2, a, b, x)); }
            for x in [Amt::N(2), Amt::N(1001), Amt::Part(10), Amt::Part(4), Amt::PartPlus1(3)] { for d in [false, true] { v.push(Act::Sell(2, a, b, x, Lim::Exact, d)); v.push(Act::Buy(2, a, b, x, Lim::Exact, d)); } }
        }
        v
    };
    World { name: "large", depth: ck.pick(3, 4), events: false, actions: &acts, step: &|a: &Act, _: &mut ()| step(a), prepare: &|| {} }.explore(&ck, big);
    ck.finish()
}
