//! P32: what the router asks of a venue is what the venue does.  The real pallet-xyk, pallet-lbp, pallet-omnipool,
//! pallet-stableswap and pallet-route-executor in one runtime, joined by the real tuple of venues of hydradx-traits.
use frame_support::{parameter_types, traits::{AsEnsureOriginWithArg, ConstU128, ConstU32, Nothing}, weights::Weight, PalletId};
use hydra_dx_math::{ema::EmaPrice, lbp as ml};
use hydradx_traits::{pools::DustRemovalAccountWhitelist, registry::{AssetKind, Inspect as RegInspect}, router::{ExecutorError, PoolType, RefundEdCalculator, RouteSpotPriceProvider, Trade, TradeExecution}, AccountIdFor, AssetPairAccountIdFor, LockedBalance};
use orml_traits::{parameter_type_with_key, GetByKey, MultiCurrency};
use pallet_lbp::{WeightCurveType, COLLECTOR_LOCK_ID};
use pallet_omnipool::{traits::ExternalPriceProvider, types::Tradability};
use pallet_stableswap::types::AssetAmount;
use sp_core::U512;
use sp_runtime::{traits::AccountIdConversion, DispatchError, FixedU128, Permill};
use std::collections::BTreeSet;
use std::num::NonZeroU16;
use std::sync::Mutex;
use world::*;

frame_support::construct_runtime!(pub enum Rt {
    System: frame_system, Balances: pallet_balances, Tokens: orml_tokens, Uniques: pallet_uniques, AssetRegistry: pallet_asset_registry,
    XYK: pallet_xyk, Lbp: pallet_lbp, Omnipool: pallet_omnipool, Swap: pallet_stableswap, Router: pallet_route_executor
});
world::system!(Rt, pallet_balances::AccountData<u128>);
world::balances!(Rt, 1);
parameter_type_with_key! { pub Eds: |_a: AssetId| -> Balance { 1 }; }
world::tokens!(Rt, Eds, Nothing, ());
const HDX: AssetId = 0;
const HUB: AssetId = 1;
const SHARE: AssetId = 10;
const OTHER: AssetId = 11;
const MIN: u128 = 1000;
const E18: u128 = 1_000_000_000_000_000_000;
type Pool = PoolType<AssetId>;
type Amm = (Omnipool, Swap, XYK, Lbp);
const X: Pool = PoolType::XYK;
const L: Pool = PoolType::LBP;
const O: Pool = PoolType::Omnipool;
const S: Pool = PoolType::Stableswap(SHARE);
const S2: Pool = PoolType::Stableswap(OTHER);
parameter_types! {
    pub const XFee: (u32, u32) = (3, 1000);
    pub const Src: hydradx_traits::Source = *b"hydraxyk";
    #[derive(PartialEq, Debug)]
    pub RegLimit: u32 = 40;
    #[derive(PartialEq, Debug)]
    pub RegMin: u32 = 2;
    pub const Three: u128 = 3;
    pub const Hub: AssetId = HUB;
    pub const Hdx: AssetId = HDX;
    pub const Coll: u32 = 77;
    pub MinFee: Permill = Permill::from_percent(1);
    pub const Pid: PalletId = PalletId(*b"omnipool");
    pub Amps: std::ops::RangeInclusive<NonZeroU16> = NonZeroU16::new(2).unwrap()..=NonZeroU16::new(10_000).unwrap();
    pub DefaultPool: Pool = O;
}
impl pallet_uniques::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type CollectionId = u32;
    type ItemId = u32;
    type Currency = Balances;
    type ForceOrigin = frame_system::EnsureRoot<u64>;
    type CreateOrigin = AsEnsureOriginWithArg<frame_system::EnsureSigned<u64>>;
    type Locker = ();
    type CollectionDeposit = ConstU128<0>;
    type ItemDeposit = ConstU128<0>;
    type MetadataDepositBase = ConstU128<0>;
    type AttributeDepositBase = ConstU128<0>;
    type DepositPerByte = ConstU128<0>;
    type StringLimit = ConstU32<50>;
    type KeyLimit = ConstU32<50>;
    type ValueLimit = ConstU32<50>;
    type WeightInfo = ();
}
impl pallet_asset_registry::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type RegistryOrigin = frame_system::EnsureRoot<u64>;
    type Currency = Tokens;
    type UpdateOrigin = frame_system::EnsureRoot<u64>;
    type AssetId = AssetId;
    type AssetNativeLocation = u8;
    type StringLimit = RegLimit;
    type MinStringLimit = RegMin;
    type SequentialIdStartAt = ConstU32<1000>;
    type RegExternalWeightMultiplier = frame_support::traits::ConstU64<1>;
    type WeightInfo = ();
}
fn pair_acc(a: AssetId, b: AssetId, sort: u64) -> u64 { sort + (a.min(b) * 100 + a.max(b)) as u64 }
pub struct XPair;
impl AssetPairAccountIdFor<AssetId, u64> for XPair { fn from_assets(a: AssetId, b: AssetId, _: &str) -> u64 { pair_acc(a, b, 10_000) } }
pub struct LPair;
impl AssetPairAccountIdFor<AssetId, u64> for LPair { fn from_assets(a: AssetId, b: AssetId, _: &str) -> u64 { pair_acc(a, b, 20_000) } }
pub struct White;
impl DustRemovalAccountWhitelist<u64> for White {
    type Error = DispatchError;
    fn add_account(_: &u64) -> Result<(), DispatchError> { Ok(()) }
    fn remove_account(_: &u64) -> Result<(), DispatchError> { Ok(()) }
}
impl pallet_xyk::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type AssetRegistry = AssetRegistry;
    type AssetPairAccountId = XPair;
    type Currency = Tokens;
    type NativeAssetId = Hdx;
    type WeightInfo = ();
    type GetExchangeFee = XFee;
    type MinTradingLimit = ConstU128<MIN>;
    type MinPoolLiquidity = ConstU128<MIN>;
    type MaxInRatio = Three;
    type MaxOutRatio = Three;
    type CanCreatePool = pallet_xyk::AllowAllPools;
    type AMMHandler = ();
    type DiscountedFee = XFee;
    type NonDustableWhitelistHandler = White;
    type OracleSource = Src;
}
pub struct Locked;
impl LockedBalance<AssetId, u64, Balance> for Locked {
    fn get_by_lock(id: frame_support::traits::LockIdentifier, a: AssetId, w: u64) -> Balance { Tokens::locks(w, a).into_iter().find(|l| l.id == id).map_or(0, |l| l.amount) }
}
impl pallet_lbp::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type MultiCurrency = Tokens;
    type LockedBalance = Locked;
    type CreatePoolOrigin = frame_system::EnsureRoot<u64>;
    type LBPWeightFunction = pallet_lbp::LBPWeightFunction;
    type AssetPairAccountId = LPair;
    type WeightInfo = ();
    type MinTradingLimit = ConstU128<MIN>;
    type MinPoolLiquidity = ConstU128<MIN>;
    type MaxInRatio = Three;
    type MaxOutRatio = Three;
    type BlockNumberProvider = System;
}
pub struct Reg;
impl RegInspect for Reg {
    type AssetId = AssetId;
    type Location = ();
    fn is_sufficient(_: AssetId) -> bool { true }
    fn exists(_: AssetId) -> bool { true }
    fn decimals(a: AssetId) -> Option<u8> { Some(match a { 2 => 6, SHARE | OTHER => 18, _ => 12 }) }
    fn asset_type(_: AssetId) -> Option<AssetKind> { None }
    fn is_banned(_: AssetId) -> bool { false }
    fn asset_name(_: AssetId) -> Option<Vec<u8>> { None }
    fn asset_symbol(_: AssetId) -> Option<Vec<u8>> { None }
    fn existential_deposit(_: AssetId) -> Option<u128> { Some(1) }
}
fn fee(a: AssetId) -> (u32, u32) { match a { HDX => (2500, 500), 2 => (10_000, 3000), SHARE => (700, 45_000), _ => (100_000, 20_000) } }
pub struct Fees;
impl GetByKey<AssetId, (Permill, Permill)> for Fees { fn get(a: &AssetId) -> (Permill, Permill) { let f = fee(*a); (Permill::from_parts(f.0), Permill::from_parts(f.1)) } }
pub struct NoOracle;
impl ExternalPriceProvider<AssetId, EmaPrice> for NoOracle {
    type Error = DispatchError;
    fn get_price(_: AssetId, _: AssetId) -> Result<EmaPrice, DispatchError> { Err(DispatchError::Other("unused")) }
    fn get_price_weight() -> Weight { Weight::zero() }
}
impl pallet_omnipool::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type AssetId = AssetId;
    type PositionItemId = u32;
    type CollectionId = u32;
    type Currency = Tokens;
    type AuthorityOrigin = frame_system::EnsureRoot<u64>;
    type TechnicalOrigin = frame_system::EnsureRoot<u64>;
    type HubAssetId = Hub;
    type HdxAssetId = Hdx;
    type NFTCollectionId = Coll;
    type NFTHandler = Uniques;
    type AssetRegistry = Reg;
    type MinimumTradingLimit = ConstU128<MIN>;
    type MinimumPoolLiquidity = ConstU128<MIN>;
    type MaxInRatio = Three;
    type MaxOutRatio = Three;
    type OmnipoolHooks = ();
    type PriceBarrier = ();
    type MinWithdrawalFee = MinFee;
    type ExternalPriceOracle = NoOracle;
    type Fee = Fees;
    type WeightInfo = ();
}
fn stable_acc(p: AssetId) -> u64 { 30_000 + p as u64 }
pub struct Acc;
impl AccountIdFor<AssetId> for Acc {
    type AccountId = u64;
    fn from_assets(a: &AssetId, _: Option<&[u8]>) -> u64 { stable_acc(*a) }
    fn name(a: &AssetId, _: Option<&[u8]>) -> Vec<u8> { a.to_le_bytes().to_vec() }
}
impl pallet_stableswap::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type AssetId = AssetId;
    type Currency = Tokens;
    type ShareAccountId = Acc;
    type AssetInspection = Reg;
    type AuthorityOrigin = frame_system::EnsureRoot<u64>;
    type MinPoolLiquidity = ConstU128<MIN>;
    type AmplificationRange = Amps;
    type MinTradingLimit = ConstU128<MIN>;
    type WeightInfo = ();
    type BlockNumberProvider = System;
    type DustAccountHandler = White;
    type Hooks = ();
}
pub struct Refund;
impl RefundEdCalculator<Balance> for Refund { fn calculate() -> u128 { 1 } }
impl pallet_route_executor::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type AssetId = AssetId;
    type Balance = Balance;
    type NativeAssetId = Hdx;
    type Currency = Tokens;
    type InspectRegistry = Reg;
    type AMM = Amm;
    type EdToRefundCalculator = Refund;
    type DefaultRoutePoolType = DefaultPool;
    type TechnicalOrigin = frame_system::EnsureRoot<u64>;
    type WeightInfo = ();
}

const ASSETS: [AssetId; 8] = [0, 1, 2, 3, 4, 5, SHARE, OTHER];
/// venue, the account it keeps its reserves in, the assets it deals in, and two it does not
type Venue = (Pool, u64, Vec<AssetId>);
fn omni_acc() -> u64 { Pid::get().into_account_truncating() }
fn venues() -> Vec<Venue> {
    vec![(X, XPair::from_assets(4, 5, ""), vec![4, 5, 2]), (L, LPair::from_assets(5, 3, ""), vec![5, 3, 4]), (O, omni_acc(), vec![HDX, 2, SHARE, HUB, 3]),
        (S, stable_acc(SHARE), vec![2, 3, SHARE, 5]), (S2, stable_acc(OTHER), vec![3, 4, 5, OTHER])]
}
fn bal(a: AssetId, w: u64) -> u128 { <Tokens as MultiCurrency<u64>>::free_balance(a, &w) }
type Wallet = Vec<Vec<u128>>;
fn wallet() -> Wallet { [1u64, 2, 3, 8, Router::router_account()].into_iter().chain(venues().into_iter().map(|v| v.1)).map(|w| ASSETS.iter().map(|a| bal(*a, w)).collect()).collect() }
fn ex<T>(r: Result<T, ExecutorError<DispatchError>>) -> Result<T, DispatchError> { r.map_err(|e| match e { ExecutorError::NotSupported => DispatchError::Other("not supported"), ExecutorError::Error(e) => e }) }
fn quote(sell: bool, p: Pool, i: AssetId, o: AssetId, x: u128) -> Result<u128, DispatchError> {
    type A = Amm;
    ex(if sell { <A as TradeExecution<RuntimeOrigin, u64, AssetId, u128>>::calculate_sell(p, i, o, x) } else { <A as TradeExecution<RuntimeOrigin, u64, AssetId, u128>>::calculate_buy(p, i, o, x) })
}
fn asked(sell: bool, who: u64, p: Pool, i: AssetId, o: AssetId, x: u128, lim: u128) -> Result<(), DispatchError> {
    ex(if sell { <Amm as TradeExecution<RuntimeOrigin, u64, AssetId, u128>>::execute_sell(signed(who), p, i, o, x, lim) } else { <Amm as TradeExecution<RuntimeOrigin, u64, AssetId, u128>>::execute_buy(signed(who), p, i, o, x, lim) })
}
fn price(p: Pool, i: AssetId, o: AssetId) -> Option<FixedU128> { <Amm as TradeExecution<RuntimeOrigin, u64, AssetId, u128>>::calculate_spot_price_with_fee(p, i, o).ok() }
/// the venue's own call for the same thing
fn own(sell: bool, who: u64, p: Pool, i: AssetId, o: AssetId, x: u128, lim: u128) -> Result<(), DispatchError> {
    let w = signed(who);
    match (p, sell) {
        (X, true) => XYK::sell(w, i, o, x, lim, false),
        (X, false) => XYK::buy(w, o, i, x, lim, false),
        (L, true) => Lbp::sell(w, i, o, x, lim),
        (L, false) => Lbp::buy(w, o, i, x, lim),
        (O, true) => Omnipool::sell(w, i, o, x, lim),
        (O, false) => Omnipool::buy(w, o, i, x, lim),
        (PoolType::Stableswap(s), true) if i == s => Swap::remove_liquidity_one_asset(w, s, o, x, lim),
        (PoolType::Stableswap(s), true) if o == s => {
            let had = bal(s, who);
            Swap::add_liquidity(w, s, vec![AssetAmount::new(i, x)])?;
            if bal(s, who) - had < lim { Err(DispatchError::Other("too few shares")) } else { Ok(()) }
        }
        (PoolType::Stableswap(s), true) => Swap::sell(w, s, i, o, x, lim),
        (PoolType::Stableswap(s), false) if o == s => Swap::add_liquidity_shares(w, s, x, i, lim),
        (PoolType::Stableswap(s), false) if i == s => Swap::withdraw_asset_amount(w, s, o, x, lim),
        (PoolType::Stableswap(s), false) => Swap::buy(w, s, o, i, x, lim),
    }
}
/// what a call leaves: its result, the state, the events, the balances
type Left = (Result<(), DispatchError>, u128, String, Wallet);
fn try_call(f: impl FnOnce() -> Result<(), DispatchError>) -> Left {
    dry(|| { let r = call(f); (r, sp_io::state_digest(), format!("{:?}", System::events()), wallet()) })
}
fn b(x: u128) -> U512 { U512::from(x) }
/// exact price of `o` in `i`, as a fraction: the marginal rate of the venue's curve less its fees
fn exact(p: Pool, a: u64, i: AssetId, o: AssetId) -> Option<(U512, U512)> {
    match p {
        X => Some((b(bal(i, a)) * b(1000), b(bal(o, a)) * b(997))),
        L => {
            let d = pallet_lbp::PoolData::<Rt>::get(a)?;
            let w0 = ml::calculate_linear_weights(d.start?, d.end?, d.initial_weight, d.final_weight, System::block_number()).ok()?;
            let w = |x| if x == d.assets.0 { w0 } else { pallet_lbp::MAX_WEIGHT - w0 };
            let f = if Locked::get_by_lock(COLLECTOR_LOCK_ID, d.assets.0, d.fee_collector) < d.repay_target { (2, 10) } else { d.fee };
            // the pool charges its fee on the asset it collects, when paying that out
            let (fnum, fden) = if o == d.assets.0 { (f.1 - f.0, f.1) } else { (1, 1) };
            Some((b(bal(i, a)) * b(w(o) as u128) * b(fden as u128), b(bal(o, a)) * b(w(i) as u128) * b(fnum as u128)))
        }
        O => {
            let so = Omnipool::load_asset_state(o).ok()?;
            let keep = b((1_000_000 - fee(o).0) as u128);
            if i == HUB { return Some((b(so.hub_reserve) * b(1_000_000), b(so.reserve) * keep)); }
            let si = Omnipool::load_asset_state(i).ok()?;
            Some((b(si.reserve) * b(so.hub_reserve) * b(1_000_000) * b(1_000_000), b(si.hub_reserve) * b(so.reserve) * keep * b((1_000_000 - fee(i).1) as u128)))
        }
        _ => None,
    }
}
fn far(x: U512, y: U512) -> U512 { if x > y { x - y } else { y - x } }
fn route(r: &[(Pool, AssetId, AssetId)]) -> Vec<Trade<AssetId>> { r.iter().map(|t| Trade { pool: t.0, asset_in: t.1, asset_out: t.2 }).collect() }

/// Everything a router can ask in this state.
fn audit(deep: bool) -> Result<(), Wrong> {
    let d0 = sp_io::state_digest();
    macro_rules! foreign { ($n:ident, $($p:expr),*) => { for p in [$($p),*] { for (i, o) in [(2, 3), (4, 5), (HDX, 2), (SHARE, 2), (5, 3)] {
        type V = $n;
        macro_rules! no { ($f:ident, $e:expr) => { must!($e == Err(ExecutorError::NotSupported), "foreign", "{} of {} answers for {p:?} {i} to {o}", stringify!($f), stringify!($n)); } }
        no!(calculate_sell, <V as TradeExecution<RuntimeOrigin, u64, AssetId, u128>>::calculate_sell(p, i, o, 5000));
        no!(calculate_buy, <V as TradeExecution<RuntimeOrigin, u64, AssetId, u128>>::calculate_buy(p, i, o, 5000));
        no!(execute_sell, <V as TradeExecution<RuntimeOrigin, u64, AssetId, u128>>::execute_sell(signed(1), p, i, o, 5000, 0));
        no!(execute_buy, <V as TradeExecution<RuntimeOrigin, u64, AssetId, u128>>::execute_buy(signed(1), p, i, o, 5000, u128::MAX));
        no!(get_liquidity_depth, <V as TradeExecution<RuntimeOrigin, u64, AssetId, u128>>::get_liquidity_depth(p, i, o));
        no!(calculate_spot_price_with_fee, <V as TradeExecution<RuntimeOrigin, u64, AssetId, u128>>::calculate_spot_price_with_fee(p, i, o));
    } } } }
    foreign!(XYK, L, O, S);
    foreign!(Lbp, X, O, S);
    foreign!(Omnipool, X, L, S);
    foreign!(Swap, X, L, O);
    must!(sp_io::state_digest() == d0, "foreign", "a venue that does not deal in a pool changed something");
    for x in [quote(true, PoolType::Stableswap(99), 2, 3, 5000), quote(false, PoolType::Stableswap(99), 2, 3, 5000)] { must!(x.is_err(), "foreign", "a pool that does not exist quotes {x:?}"); }
    must!(price(PoolType::Stableswap(99), 2, 3).is_none(), "foreign", "a pool that does not exist has a price");
    for (p, a, list) in venues() {
        for &i in &list { for &o in &list {
            let pr = price(p, i, o);
            must!(sp_io::state_digest() == d0, "look", "asking {p:?} for a price changes something");
            let depth = <Amm as TradeExecution<RuntimeOrigin, u64, AssetId, u128>>::get_liquidity_depth(p, i, o).ok();
            let known = match p { O => Omnipool::load_asset_state(i).is_ok(), X | L => [i, o].iter().all(|x| list[..2].contains(x)) && i != o, _ => true };
            if known { must!(depth == Some(bal(i, a)), "depth", "{p:?} says it holds {depth:?} of {i}; it holds {}", bal(i, a)); }
            else if p == O { must!(depth.is_none(), "depth", "the Omnipool says it holds {depth:?} of {i}"); }
            let member = |x: AssetId| match p { X | L => list[..2].contains(&x), O => x == HUB || Omnipool::load_asset_state(x).is_ok(), PoolType::Stableswap(s) => x == s || pallet_stableswap::Pools::<Rt>::get(s).map_or(false, |q| q.assets.contains(&x)) };
            let deals = member(i) && member(o) && i != o;
            if let (true, Some((n, d)), false) = (deals, exact(p, a, i, o), p == O && o == HUB) {
                let want = n * b(E18) / d;
                match pr {
                    // each of the factors is rounded once before the reciprocal is taken
                    Some(q) => {
                    let q = b(q.into_inner());
                    // (a hub price below one keeps fewer digits)
                    let thin = match p { O => [Omnipool::load_asset_state(i).map(|s| s.reserve / s.hub_reserve), Omnipool::load_asset_state(o).map(|s| s.hub_reserve / s.reserve)].into_iter().flatten().sum::<u128>() * 2, _ => 0 };
                    let tol = want * b(thin) / b(E18) + want * want / b(E18) / b(E18) * b(6) + want / b(10u128.pow(12)) + b(6); must!(far(q, want) <= tol, "price", "{p:?} prices {o} at {q} of {i}; its curve says {want}"); }
                    None => must!(want > b(E18) * b(E18), "price", "{p:?} has no price of {o} in {i}; its curve says {want}"),
                }
            }
            if !deals || p == O && o == HUB { if !(matches!(p, X | L) || i == o) { must!(pr.is_none(), "price", "{p:?} has a price of {o} in {i}: {pr:?}"); } }
            let (ri, ro) = if deals { (bal(i, a), bal(o, a)) } else { (1_000_000, 1_000_000) };
            for sell in [true, false] {
                let r = match p { PoolType::Stableswap(s) if sell && i == s || !sell && o == s => <Tokens as MultiCurrency<u64>>::total_issuance(s), _ => if sell { ri } else { ro } };
                let mut xs = vec![r / 1_000_000, r / 40];
                if deep { xs.extend([0, MIN - 1, MIN, r / 3, r / 3 + 1, r]); }
                for x in xs { for who in [1u64, 3] {
                    if who == 3 && x != r / 40 { continue; }
                    let text = |m: &str| format!("{} {x} of {p:?} {i} to {o} by {who}: {m}", if sell { "sell" } else { "buy" });
                    let q = quote(sell, p, i, o, x);
                    must!(sp_io::state_digest() == d0, "look", "{}", text("the quote changes something"));
                    let open = if sell { 0 } else { u128::MAX };
                    let lims = match q { Ok(y) if deals => vec![open, y, if sell { y.saturating_add(1) } else { y.saturating_sub(1) }], _ => vec![open] };
                    let mut through = false;
                    for (k, lim) in lims.iter().enumerate() {
                        let w0 = wallet();
                        let (r1, r2) = (try_call(|| asked(sell, who, p, i, o, x, *lim)), try_call(|| own(sell, who, p, i, o, x, *lim)));
                        let minting = sell && matches!(p, PoolType::Stableswap(s) if s == o);
                        must!(if minting { r1.0.is_ok() == r2.0.is_ok() } else { r1.0 == r2.0 }, "same", "{}", text(&format!("limit {lim}: asked gives {:?}, the venue's own call {:?}", r1.0, r2.0)));
                        must!(r1.1 == r2.1 && (r1.2 == r2.2 || r1.0.is_err()), "same", "{}", text(&format!("limit {lim}: asked leaves another state or other events than the venue's own call")));
                        if r1.0.is_err() { must!(r1.1 == d0, "same", "{}", text("refused but changes something")); }
                        if k == 0 { through = r1.0.is_ok(); }
                        must!(r1.0.is_ok() == (through && k < 2), "limit", "{}", text(&format!("quote {q:?}, limit {lim}: {:?}", r1.0)));
                        if r1.0.is_err() { continue; }
                        must!(deals, "deal", "{}", text("goes through"));
                        let Ok(y) = q.clone() else { return wrong("quote", text(&format!("goes through, the quote was {q:?}"))) };
                        let (pay, get) = if sell { (x, y) } else { (y, x) };
                        let (u, ii, oi) = (if who == 1 { 0 } else { 2 }, ASSETS.iter().position(|z| *z == i).unwrap(), ASSETS.iter().position(|z| *z == o).unwrap());
                        let w1 = &r1.3;
                        must!(w0[u][ii] - w1[u][ii] == pay && w1[u][oi] - w0[u][oi] == get, "quote", "{}", text(&format!("quoted {y}; paid {}, got {}", w0[u][ii] - w1[u][ii], w1[u][oi] - w0[u][oi])));
                        // a trade is never better than the price, and a small one not much worse
                        if let (Some(q), 0) = (pr, k) {
                            let q = b(q.into_inner());
                            let (lhs, rhs) = (b(pay) * b(E18), b(get) * q);
                            // (what a stable pool charges for its shares depends on how far the trade tilts it)
                            let f = match p { PoolType::Stableswap(s) => pallet_stableswap::Pools::<Rt>::get(s).map_or(0, |q| q.fee.deconstruct() as u128), _ => 0 };
                            let slack = if matches!(p, PoolType::Stableswap(s) if s == i || s == o) { f } else if sell { 0 } else { f * f / 900_000 };
                            // (a buy pays the fee on top: 1 + f rather than 1 / (1 - f); in LBP that is 1.2 against 1.25 while repaying)
                            must!(lhs + lhs / b(if p == L && !sell { 16 } else { 100_000 }) + lhs * b(slack) / b(1_000_000) + q * b(4) + b(E18) * b(4) >= rhs, "better", "{}", text(&format!("pays {pay} for {get}, better than the price {q}")));
                            let small = x == r / 1_000_000;
                            if small { must!(rhs + rhs / b(500) + rhs * b(slack) / b(1_000_000) + q * b(4) + b(E18) * b(4) >= lhs, "worse", "{}", text(&format!("pays {pay} for {get}, much worse than the price {q}"))); }
                        }
                    }
                } }
            }
        } }
    }
    // whole routes: the same trades one by one, and the product of the prices
    let routes = [
        route(&[(O, HDX, 2), (S, 2, 3)]), route(&[(O, HDX, SHARE), (S, SHARE, 3), (S2, 3, 4), (X, 4, 5)]), route(&[(X, 5, 4), (S2, 4, 3), (S, 3, SHARE), (O, SHARE, HDX)]),
        route(&[(X, 4, 5), (L, 5, 3)]), route(&[(L, 3, 5), (X, 5, 4), (S2, 4, OTHER)]), route(&[(O, HUB, 2), (S, 2, SHARE)]), route(&[(S2, OTHER, 3), (S, 3, 2), (O, 2, HDX)]), route(&[(L, 5, 3)]), route(&[(X, 4, 5)]),
    ];
    for r in routes {
        let (i, o) = (r[0].asset_in, r[r.len() - 1].asset_out);
        let ps: Vec<_> = r.iter().map(|t| price(t.pool, t.asset_in, t.asset_out)).collect();
        let all = <Router as RouteSpotPriceProvider<AssetId>>::spot_price_with_fee(&r);
        if ps.iter().all(|p| p.is_some()) {
            let want = ps.iter().fold(b(E18), |a, p| a * b(p.unwrap().into_inner()) / b(E18));
            match all { Some(g) => must!(far(b(g.into_inner()), want) <= want / b(1_000_000_000) + b(40), "route_price", "{r:?} is priced {g:?}, its trades {want}"), None => must!(want > b(u128::MAX) || want < b(1_000_000), "route_price", "{r:?} has no price") }
        } else { must!(all.is_none(), "route_price", "{r:?} is priced {all:?}"); }
        for sell in [true, false] { for part in [5000u128, 300] {
            let first = &r[if sell { 0 } else { r.len() - 1 }];
            let v = venues().into_iter().find(|v| v.0 == first.pool).unwrap();
            let a = if sell { first.asset_in } else { first.asset_out };
            let x = if matches!(first.pool, PoolType::Stableswap(s) if s == a) { <Tokens as MultiCurrency<u64>>::total_issuance(a) } else { bal(a, v.1) } / part;
            // in order, each with what the one before gave; or from the last, each for what the next one takes
            let steps: Option<Vec<(u128, u128)>> = dry(|| {
                let mut out = vec![];
                let mut amt = x;
                if sell { for t in &r { let had = bal(t.asset_out, 1); call(|| own(true, 1, t.pool, t.asset_in, t.asset_out, amt, 0)).ok()?; let got = bal(t.asset_out, 1) - had; out.push((amt, got)); amt = got; } }
                else { for t in r.iter().rev() { let y = quote(false, t.pool, t.asset_in, t.asset_out, amt).ok()?; out.push((y, amt)); amt = y; } out.reverse(); }
                Some(out)
            });
            let want = steps.map(|st| {
                let lim = if sell { st[st.len() - 1].1 } else { st[0].0 };
                let end = try_call(|| { for (t, (p, g)) in r.iter().zip(&st) { own(sell, 1, t.pool, t.asset_in, t.asset_out, if sell { *p } else { *g }, if sell { 0 } else { u128::MAX })? } Ok(()) });
                (lim, end)
            }).filter(|w| w.1 .0.is_ok());
            let go = |lim: u128| try_call(|| { let rt = r.clone(); if sell { Router::sell(signed(1), i, o, x, lim, rt) } else { Router::buy(signed(1), i, o, x, lim, rt) } });
            let text = |m: String| format!("{} {x} along {r:?}: {m}", if sell { "sell" } else { "buy" });
            match want {
                Some((lim, end)) => {
                    let done = go(lim);
                    must!(done.0.is_ok(), "route", "{}", text(format!("each trade by itself goes through and gives {lim} in the end, the router says {:?}", done.0)));
                    must!(done.3 == end.3, "route", "{}", text(format!("leaves {:?}, the trades by themselves {:?}", done.3, end.3)));
                    must!(go(if sell { lim + 1 } else { lim - 1 }).0.is_err(), "route", "{}", text(format!("goes beyond the limit {lim}")));
                }
                None => { let done = go(if sell { 0 } else { u128::MAX }); must!(done.0.is_err() && done.1 == d0, "route", "{}", text("a trade of it is refused by itself, yet it goes through".into())); }
            }
        } }
    }
    must!(sp_io::state_digest() == d0, "look", "looking changes something");
    Ok(())
}

static SEEN: Mutex<BTreeSet<u128>> = Mutex::new(BTreeSet::new());
#[derive(Clone, Debug)]
enum Act { Trade(Pool, AssetId, AssetId, u128), Blocks(u64), Donate(Pool, AssetId, u128), StableFee(AssetId, u32), Tradable(AssetId, u8), Repay(u128), Amp(AssetId, u16) }
fn step(a: &Act, deep: bool) -> Result<bool, Wrong> {
    let at = |p: Pool| venues().into_iter().find(|v| v.0 == p).unwrap().1;
    let r: Result<(), DispatchError> = match *a {
        Act::Trade(p, i, o, part) => { let x = if matches!(p, PoolType::Stableswap(s) if s == i) { bal(i, 2) } else { bal(i, at(p)) } / part; call(|| asked(true, 2, p, i, o, x, 0)) }
        Act::Blocks(n) => { System::set_block_number(System::block_number() + n); Ok(()) }
        Act::Donate(p, i, part) => { let w = at(p); let x = bal(i, w) / part; call(|| <Tokens as MultiCurrency<u64>>::transfer(i, &2, &w, x)) }
        Act::StableFee(p, f) => call(|| Swap::update_pool_fee(root(), p, Permill::from_parts(f))),
        Act::Tradable(i, f) => call(|| Omnipool::set_asset_tradable_state(root(), i, Tradability::from_bits_truncate(f))),
        Act::Repay(x) => call(|| <Tokens as MultiCurrency<u64>>::transfer(5, &2, &8, x)),
        Act::Amp(p, n) => call(|| Swap::update_amplification(root(), p, n, System::block_number() + 2, System::block_number() + 8)),
    };
    if SEEN.lock().unwrap().insert(sp_io::state_digest()) { audit(deep)?; }
    Ok(r.is_ok())
}
/// `unit`: how much one whole token of 12 decimals is in this start
fn begin(name: &str, unit: u128, lbp: Option<(u64, u64, u128)>, tilt: u128, deep: bool) -> Start<()> {
    start(name, || {
        System::set_block_number(5);
        let of = |a: AssetId, n: u128| n * unit * match a { 2 => 1, SHARE | OTHER => 1_000_000, _ => 1 } / if a == 2 { 1_000_000 } else { 1 };
        for w in [1u64, 2] { for a in [0, 1, 2, 3, 4, 5] { <Tokens as MultiCurrency<u64>>::deposit(a, &w, of(a, 100_000_000)).unwrap(); } }
        for a in [0, 2, 4] { <Tokens as MultiCurrency<u64>>::deposit(a, &3, 30).unwrap(); }
        let list = |s: AssetId, a: &[AssetId], n: u128, fee: u32| {
            call(|| Swap::create_pool(root(), s, a.to_vec(), 120, Permill::from_parts(fee))).expect("stable pool");
            call(|| Swap::add_liquidity(signed(2), s, a.iter().enumerate().map(|(k, a)| AssetAmount::new(*a, of(*a, n + n * tilt * k as u128 / 10))).collect())).expect("first liquidity");
        };
        list(SHARE, &[2, 3], 3_000_000, 400);
        list(OTHER, &[3, 4, 5], 500_000, 0);
        <Tokens as MultiCurrency<u64>>::transfer(SHARE, &2, &1, of(SHARE, 1_000_000)).unwrap();
        <Tokens as MultiCurrency<u64>>::transfer(OTHER, &2, &1, of(OTHER, 300_000)).unwrap();
        for (a, n, price) in [(HDX, 2_000_000, E18 / 20), (2, 1_000_000, E18 * 1_000_000 / 3), (SHARE, 400_000, E18 / 1_000_000 / 3)] {
            <Tokens as MultiCurrency<u64>>::transfer(a, &2, &omni_acc(), of(a, n)).unwrap();
            call(|| Omnipool::add_token(root(), a, FixedU128::from_inner(price), Permill::from_percent(100), 1)).expect("listed");
        }
        call(|| XYK::create_pool(signed(2), 4, of(4, 700_000), 5, of(5, 900_000))).expect("xyk");
        if let Some((from, to, repay)) = lbp {
            call(|| Lbp::create_pool(root(), 2, 5, of(5, 200_000), 3, of(3, 600_000), 20_000_000, 60_000_000, WeightCurveType::Linear, (2, 1000), 8, of(5, repay))).expect("lbp");
            call(|| Lbp::update_pool_data(signed(2), LPair::from_assets(5, 3, ""), None, Some(from), Some(to), None, None, None, None, None)).expect("sale");
            System::set_block_number(from + 1);
        }
        if let Err(w) = audit(deep) { panic!("start {name}: {} {}", w.0, w.1) }
    })
}
fn main() {
    let ck = kit::Check::new("P32");
    let deep = ck.thorough;
    let acts = |_: &()| {
        let mut v = vec![Act::Blocks(1), Act::Blocks(6), Act::StableFee(SHARE, 20_000), Act::Tradable(2, 1), Act::Tradable(2, 14), Act::Amp(OTHER, 900)];
        for (p, i, o) in [(X, 4, 5), (X, 5, 4), (L, 5, 3), (L, 3, 5), (O, HDX, 2), (O, 2, SHARE), (O, HUB, HDX), (S, 2, 3), (S, SHARE, 3), (S, 3, SHARE), (S2, 5, 3), (S2, OTHER, 4)] { v.push(Act::Trade(p, i, o, 4)); }
        for (p, i) in [(X, 4), (L, 3), (O, 2), (O, HUB), (S, 2), (S2, 5)] { v.push(Act::Donate(p, i, 9)); }
        v.push(Act::Repay(50_000));
        v
    };
    let near = vec![begin("balanced, sale on", 1_000_000_000_000, Some((6, 16, 0)), 0, true), begin("tilted, sale repaying", 1_000_000_000_000, Some((6, 16, 4_000)), 4, true)];
    let more = vec![begin("no sale", 1_000_000_000_000, None, 1, true), begin("larger", 1_000_000_000_000_000, Some((6, 8, 1)), 2, true), begin("smaller", 1_000_000, Some((6, 9, 0)), 7, true)];
    World { name: "venues", depth: ck.pick(2, 3), events: true, actions: &acts, step: &|a: &Act, _: &mut ()| step(a, deep), prepare: &|| {} }.explore(&ck, near);
    World { name: "more venues", depth: ck.pick(1, 2), events: true, actions: &acts, step: &|a: &Act, _: &mut ()| step(a, true), prepare: &|| {} }.explore(&ck, more);
    ck.finish()
}
