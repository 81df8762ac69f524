//! P02: the Omnipool, on the real pallet-omnipool with stand-in tokens and uniques.
use frame_support::{parameter_types, traits::{tokens::nonfungibles::{Inspect as _, Transfer as _}, ConstU128, ConstU32, Nothing, AsEnsureOriginWithArg}, weights::Weight, storage::unhashed, PalletId};
use hydra_dx_math::{ema::EmaPrice, omnipool::{self as m, types::{AssetReserveState as MState, BalanceUpdate::{self, *}, I129}}};
use hydradx_traits::{router::{PoolType, TradeExecution}, registry::{Inspect as RegInspect, AssetKind}};
use orml_traits::{parameter_type_with_key, GetByKey, MultiCurrency};
use pallet_omnipool::{traits::{AssetInfo, ExternalPriceProvider, OmnipoolHooks, ShouldAllow}, types::{AssetReserveState, Position, Tradability}};
use sp_core::U256;
use sp_runtime::{traits::AccountIdConversion, DispatchError, FixedPointNumber, FixedU128, Permill};
use std::cell::RefCell;
use std::collections::BTreeMap;
use world::*;

frame_support::construct_runtime!(
    pub enum Rt { System: frame_system, Balances: pallet_balances, Tokens: orml_tokens, Uniques: pallet_uniques, Omnipool: pallet_omnipool }
);
world::system!(Rt, pallet_balances::AccountData<u128>);
world::balances!(Rt, 1);
const HUB: AssetId = 1;
const HDX: AssetId = 2;
const HUB_ED: u128 = 5;
parameter_type_with_key! { pub Eds: |a: AssetId| -> Balance { if *a == HUB { HUB_ED } else { 1 } }; }
world::tokens!(Rt, Eds, Nothing, ());
parameter_types! {
    pub const Hub: AssetId = HUB;
    pub const Hdx: AssetId = HDX;
    pub const Coll: u32 = 77;
    pub MinFee: Permill = Permill::from_percent(3);
    pub const Pid: PalletId = PalletId(*b"omnipool");
}
impl pallet_uniques::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type CollectionId = u32;
    type ItemId = u32;
    type Currency = Balances;
    type ForceOrigin = frame_system::EnsureRoot<u64>;
    type CreateOrigin = AsEnsureOriginWithArg<frame_system::EnsureSigned<u64>>;
    type Locker = ();
    type CollectionDeposit = ConstU128<0>;
    type ItemDeposit = ConstU128<0>;
    type MetadataDepositBase = ConstU128<0>;
    type AttributeDepositBase = ConstU128<0>;
    type DepositPerByte = ConstU128<0>;
    type StringLimit = ConstU32<50>;
    type KeyLimit = ConstU32<50>;
    type ValueLimit = ConstU32<50>;
    type WeightInfo = ();
}
const MIN_TRADE: u128 = 2;
const MIN_LIQ: u128 = 10;
const RATIO: u128 = 3;
const TECH: u64 = 7;
const BEN: u64 = 9;
frame_support::ord_parameter_types! { pub const TechAcc: u64 = TECH; }
impl pallet_omnipool::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type AssetId = AssetId;
    type PositionItemId = u32;
    type CollectionId = u32;
    type Currency = Tokens;
    type AuthorityOrigin = frame_system::EnsureRoot<u64>;
    type TechnicalOrigin = frame_system::EnsureSignedBy<TechAcc, u64>;
    type HubAssetId = Hub;
    type HdxAssetId = Hdx;
    type NFTCollectionId = Coll;
    type NFTHandler = Uniques;
    type AssetRegistry = Reg;
    type MinimumTradingLimit = ConstU128<MIN_TRADE>;
    type MinimumPoolLiquidity = ConstU128<MIN_LIQ>;
    type MaxInRatio = ConstU128<RATIO>;
    type MaxOutRatio = ConstU128<RATIO>;
    type OmnipoolHooks = Hooks;
    type PriceBarrier = Barrier;
    type MinWithdrawalFee = MinFee;
    type ExternalPriceOracle = Oracle;
    type Fee = Fees;
    type WeightInfo = ();
}
pub struct Reg;
impl RegInspect for Reg {
    type AssetId = AssetId;
    type Location = ();
    fn is_sufficient(_: AssetId) -> bool { true }
    fn exists(a: AssetId) -> bool { a <= 4 }
    fn decimals(_: AssetId) -> Option<u8> { None }
    fn asset_type(_: AssetId) -> Option<AssetKind> { None }
    fn is_banned(_: AssetId) -> bool { false }
    fn asset_name(_: AssetId) -> Option<Vec<u8>> { None }
    fn asset_symbol(_: AssetId) -> Option<Vec<u8>> { None }
    fn existential_deposit(_: AssetId) -> Option<u128> { Some(1) }
}
fn fee(a: AssetId) -> (Permill, Permill) { match a { 2 => (Permill::from_percent(1), Permill::from_percent(2)), 3 => (Permill::from_percent(4), Permill::from_percent(1)), 4 => (Permill::from_percent(10), Permill::from_percent(5)), _ => (Permill::from_percent(50), Permill::from_percent(50)) } }
pub struct Fees;
impl GetByKey<AssetId, (Permill, Permill)> for Fees { fn get(a: &AssetId) -> (Permill, Permill) { fee(*a) } }

/// 0: nothing, 1: all that is allowed, 2: one more than allowed, 3: takes some and reports more
fn take_mode() -> u8 { unhashed::get(b":take").unwrap_or(0) }
/// 0: equals spot, 1: 2% off, 2: double and outside the barrier, 3: unavailable, 4: 99% above (inside the barrier)
fn oracle_mode() -> u8 { unhashed::get(b":oracle").unwrap_or(0) }
fn oracle_price(a: AssetId) -> Result<EmaPrice, DispatchError> {
    let s = st(a).ok_or(DispatchError::Other("no asset"))?;
    Ok(match oracle_mode() { 0 => EmaPrice::new(s.hub_reserve, s.reserve), 1 => EmaPrice::new(s.hub_reserve * 51 / 50, s.reserve), 2 | 4 => EmaPrice::new(s.hub_reserve * 2, s.reserve), 5 => EmaPrice::new(0, 1), _ => return Err(DispatchError::Other("no price")) })
}
pub struct Oracle;
impl ExternalPriceProvider<AssetId, EmaPrice> for Oracle {
    type Error = DispatchError;
    fn get_price(a: AssetId, b: AssetId) -> Result<EmaPrice, DispatchError> { assert_eq!(a, HUB); oracle_price(b) }
    fn get_price_weight() -> Weight { Weight::zero() }
}
pub struct Barrier;
impl ShouldAllow<u64, AssetId, EmaPrice> for Barrier {
    fn ensure_price(_: &u64, a: AssetId, b: AssetId, p: EmaPrice) -> Result<(), ()> {
        let s = st(b).unwrap();
        assert!(a == HUB && p == EmaPrice::new(s.hub_reserve, s.reserve), "the price barrier is asked about another price");
        if oracle_mode() == 2 { Err(()) } else { Ok(()) }
    }
}
#[derive(Clone, Debug, PartialEq)]
struct Info { id: AssetId, before: (u128, u128, u128, u128), after: (u128, u128, u128, u128), safe: bool }
#[derive(Clone, Debug, PartialEq)]
enum Told { Liq(Info), Trade(Info, Info), Hub(Info), Fee(AssetId, u128, u64) }
thread_local! { static TOLD: RefCell<Vec<Told>> = RefCell::new(vec![]); }
fn told(t: Told) { TOLD.with(|x| x.borrow_mut().push(t)) }
fn quad(s: &AssetReserveState<u128>) -> (u128, u128, u128, u128) { (s.reserve, s.hub_reserve, s.shares, s.protocol_shares) }
fn info(i: &AssetInfo<AssetId, u128>) -> Info {
    let c = &i.delta_changes;
    let d = |x: &BalanceUpdate<u128>| match x { Increase(x) => *x as i128, Decrease(x) => -(*x as i128) };
    let (x, y) = (quad(&i.before), quad(&i.after));
    assert_eq!((d(&c.delta_reserve), d(&c.delta_hub_reserve)), (y.0 as i128 - x.0 as i128, y.1 as i128 - x.1 as i128), "hooks are told other changes of asset {} than happen", i.asset_id);
    Info { id: i.asset_id, before: quad(&i.before), after: quad(&i.after), safe: i.safe_withdrawal }
}
pub struct Hooks;
impl OmnipoolHooks<RuntimeOrigin, u64, AssetId, u128> for Hooks {
    type Error = DispatchError;
    fn on_liquidity_changed(_: RuntimeOrigin, a: AssetInfo<AssetId, u128>) -> Result<Weight, DispatchError> { told(Told::Liq(info(&a))); Ok(Weight::zero()) }
    fn on_trade(_: RuntimeOrigin, a: AssetInfo<AssetId, u128>, b: AssetInfo<AssetId, u128>) -> Result<Weight, DispatchError> { told(Told::Trade(info(&a), info(&b))); Ok(Weight::zero()) }
    fn on_hub_asset_trade(_: RuntimeOrigin, a: AssetInfo<AssetId, u128>) -> Result<Weight, DispatchError> { told(Told::Hub(info(&a))); Ok(Weight::zero()) }
    fn on_liquidity_changed_weight() -> Weight { Weight::zero() }
    fn on_trade_weight() -> Weight { Weight::zero() }
    fn on_trade_fee(acc: u64, trader: u64, a: AssetId, x: u128) -> Result<u128, DispatchError> {
        told(Told::Fee(a, x, trader));
        let (t, say) = match take_mode() { 0 => (0, 0), 1 => (x, x), 2 => (x + 1, x + 1), _ => (x / 2, x) };
        if t > 0 { <Tokens as MultiCurrency<u64>>::transfer(a, &acc, &BEN, t)?; }
        Ok(say)
    }
}

#[derive(Clone, Copy, Debug)]
enum Amt { N(u128), Part(u128), PartPlus1(u128), All, AllPlus1 }
use Amt::*;
fn amt(a: Amt, of: u128) -> u128 { match a { N(n) => n, Part(p) => of / p, PartPlus1(p) => of / p + 1, All => of, AllPlus1 => of + 1 } }
#[derive(Clone, Copy, Debug)]
enum Lim { Open, Exact, Tight }
#[derive(Clone, Copy, Debug)]
enum By { Root, Tech, User }
fn by(b: By) -> RuntimeOrigin { match b { By::Root => root(), By::Tech => signed(TECH), By::User => signed(1) } }
#[derive(Clone, Debug)]
enum Act {
    Sell(u64, AssetId, AssetId, Amt, Lim), Buy(u64, AssetId, AssetId, Amt, Lim),
    Add(u64, AssetId, Amt, Lim), Remove(u64, u32, Amt, Lim), Sacrifice(u64, u32), GivePosition(u64, u64, u32),
    AddToken(By, AssetId, u128, u64), RemoveToken(By, AssetId), WithdrawProtocol(By, AssetId, Amt, bool),
    SetTradable(By, AssetId, u8), SetCap(By, AssetId, u32), Refund(By, AssetId, Amt),
    Donate(u64, AssetId, u128), Oracle(u8),
}
const WHO: [u64; 5] = [1, 2, 3, TECH, BEN];
const ASSETS: [AssetId; 4] = [1, 2, 3, 4];
fn pool() -> u64 { Pid::get().into_account_truncating() }
fn bal(a: AssetId, w: u64) -> u128 { <Tokens as MultiCurrency<u64>>::free_balance(a, &w) }
fn st(a: AssetId) -> Option<AssetReserveState<u128>> { Omnipool::load_asset_state(a).ok() }
fn ms(s: &AssetReserveState<u128>) -> MState<u128> { MState { reserve: s.reserve, hub_reserve: s.hub_reserve, shares: s.shares, protocol_shares: s.protocol_shares } }
fn pos(i: u32) -> Option<Position<u128, AssetId>> { Omnipool::positions(i) }
fn owner(i: u32) -> Option<u64> { <Uniques as frame_support::traits::tokens::nonfungibles::Inspect<u64>>::owner(&77, &i) }
fn imb() -> I129<u128> { let i = Omnipool::current_imbalance(); I129 { value: i.value, negative: i.negative } }

#[derive(Clone, PartialEq, Debug)]
struct See { asset: Vec<Option<(u128, u128, u128, u128, u128, u8)>>, bal: Vec<Vec<u128>>, issuance: Vec<u128>, pos: BTreeMap<u32, (AssetId, u128, u128, (u128, u128), Option<u64>)>, imb: (u128, bool), hubs: u128, next: u32, hubtrade: u8 }
fn see() -> See {
    let i = imb();
    See {
        asset: ASSETS.iter().map(|a| st(*a).map(|s| (s.reserve, s.hub_reserve, s.shares, s.protocol_shares, s.cap, s.tradable.bits()))).collect(),
        bal: WHO.iter().map(|w| ASSETS.iter().map(|a| bal(*a, *w)).collect()).collect(),
        issuance: ASSETS.iter().map(|a| <Tokens as MultiCurrency<u64>>::total_issuance(*a)).collect(),
        pos: (0..Omnipool::next_position_id() + 1).filter_map(|i| pos(i).map(|p| (i, (p.asset_id, p.amount, p.shares, p.price, owner(i))))).collect(),
        imb: (i.value, i.negative), hubs: bal(HUB, pool()), next: Omnipool::next_position_id(),
        hubtrade: (Omnipool::is_hub_asset_allowed(Tradability::SELL) as u8) | (Omnipool::is_hub_asset_allowed(Tradability::BUY) as u8) << 1,
    }
}
fn state_ok(s: &See) -> Result<(), Wrong> {
    let sum: u128 = s.asset.iter().flatten().map(|a| a.1).sum();
    must!(sum == s.hubs, "hub_total", "hub reserves sum to {sum}, the pool holds {} of the hub asset", s.hubs);
    for (k, a) in ASSETS.iter().enumerate() {
        let held: u128 = s.pos.values().filter(|p| p.0 == *a).map(|p| p.2).sum();
        match s.asset[k] {
            Some(x) => {
                must!(x.3 <= x.2, "shares", "asset {a}: protocol shares {} of {}", x.3, x.2);
                must!(x.2 - x.3 == held, "shares", "asset {a}: {} shares, {} of the protocol, positions hold {held}", x.2, x.3);
            }
            None => must!(held == 0, "shares", "asset {a} is not in the pool but positions hold {held} shares"),
        }
    }
    for i in 0..=s.next { must!(pos(i).is_some() == owner(i).is_some(), "position", "position {i}: recorded {}, owner {:?}", pos(i).is_some(), owner(i)); }
    must!(s.imb.1 || s.imb.0 == 0, "imbalance", "imbalance is positive: {}", s.imb.0);
    Ok(())
}
fn prod(x: (u128, u128)) -> U256 { U256::from(x.0) * U256::from(x.1) }
fn imb_after(d: BalanceUpdate<u128>) -> Option<(u128, bool)> {
    // imbalances are negative or zero
    let v = imb().value;
    match d { Increase(x) => if x <= v { Some((v - x, true)) } else { None }, Decrease(x) => Some((v + x, true)) }
}
fn lim_min(l: Lim, x: u128) -> u128 { match l { Lim::Open => 0, Lim::Exact => x, Lim::Tight => x + 1 } }
fn lim_max(l: Lim, x: u128) -> u128 { match l { Lim::Open => u128::MAX, Lim::Exact => x, Lim::Tight => x.saturating_sub(1) } }
fn flag(s: &AssetReserveState<u128>, f: u8) -> bool { s.tradable.bits() & f == f }
fn fee_ok(f: u128) -> bool { match take_mode() { 2 => false, 3 => { let a = f.saturating_sub(1); a / 2 == a } _ => true } }
fn taken(f: u128) -> u128 { if take_mode() == 1 { f.saturating_sub(1) } else { 0 } }
fn hub_paid(amount: u128, dest: u64) -> u128 { if bal(HUB, dest) == 0 && amount < HUB_ED { 0 } else { amount } }

fn trade(sell: bool, who: u64, i: AssetId, o: AssetId, a: Amt, l: Lim) -> Result<bool, Wrong> {
    let s0 = see();
    let (si, so) = (st(i), st(o));
    let base = if sell { if i == HUB { so.as_ref().map(|s| s.hub_reserve) } else { si.as_ref().map(|s| s.reserve) } } else { so.as_ref().map(|s| s.reserve) };
    let x = amt(a, base.unwrap_or(60));
    let hub = i == HUB;
    // what the math says: amount in, amount out, the states after, fee, imbalance, hub amounts
    struct R { pay: u128, get: u128, out: (u128, u128), inn: (u128, u128), fee: u128, imb: BalanceUpdate<u128>, hdx: u128 }
    let r: Option<R> = if o == HUB || i == o { None } else if hub {
        so.as_ref().and_then(|s| {
            let c = if sell { m::calculate_sell_hub_state_changes(&ms(s), x, fee(o).0, imb(), s0.hubs) } else if x < s.reserve { m::calculate_buy_for_hub_asset_state_changes(&ms(s), x, fee(o).0, imb(), s0.hubs) } else { None }?;
            let n = ms(s).delta_update(&c.asset)?;
            Some(R { pay: *c.asset.delta_hub_reserve, get: *c.asset.delta_reserve, out: (n.reserve, n.hub_reserve), inn: (0, 0), fee: c.fee.asset_fee, imb: c.delta_imbalance, hdx: 0 })
        })
    } else {
        si.as_ref().zip(so.as_ref()).and_then(|(a, b)| {
            let c = if sell { m::calculate_sell_state_changes(&ms(a), &ms(b), x, fee(o).0, fee(i).1, s0.imb.0) } else { m::calculate_buy_state_changes(&ms(a), &ms(b), x, fee(o).0, fee(i).1, s0.imb.0) }?;
            let (p, q) = (ms(a).delta_update(&c.asset_in)?, ms(b).delta_update(&c.asset_out)?);
            Some(R { pay: *c.asset_in.delta_reserve, get: *c.asset_out.delta_reserve, out: (q.reserve, q.hub_reserve), inn: (p.reserve, p.hub_reserve), fee: c.fee.asset_fee, imb: c.delta_imbalance, hdx: c.hdx_hub_amount })
        })
    };
    let limit = match &r { Some(r) => if sell { lim_min(l, r.get) } else { lim_max(l, r.pay) }, None => if sell { 0 } else { u128::MAX } };
    let good = match &r {
        None => false,
        Some(r) => {
            let so = so.as_ref().unwrap();
            x >= MIN_TRADE && bal(i, who) >= r.pay && bal(i, who) >= if sell { x } else { 0 }
                && (if hub { s0.hubtrade & 1 == 1 } else { flag(si.as_ref().unwrap(), 1) }) && flag(so, 2)
                && r.pay <= if hub { so.hub_reserve } else { si.as_ref().unwrap().reserve } / RATIO && r.get <= so.reserve / RATIO
                && (if sell { r.get >= limit } else { r.pay <= limit }) && (hub || !sell || r.get > 0)
                && imb_after(r.imb).is_some() && fee_ok(r.fee) && !(hub && bal(HUB, who) - r.pay > 0 && bal(HUB, who) - r.pay < HUB_ED)
        }
    };
    let quote = dry(|| if sell { <Omnipool as TradeExecution<RuntimeOrigin, u64, AssetId, u128>>::calculate_sell(PoolType::Omnipool, i, o, x) } else { <Omnipool as TradeExecution<RuntimeOrigin, u64, AssetId, u128>>::calculate_buy(PoolType::Omnipool, i, o, x) });
    let res = call(|| if sell { Omnipool::sell(signed(who), i, o, x, limit) } else { Omnipool::buy(signed(who), o, i, x, limit) });
    // dust of the hub asset left with the trader is swept; the pool's ledger is unaffected, so leave that case open
    let dusty = hub && r.as_ref().map_or(false, |r| { let b = bal(HUB, who); !res.is_ok() && b > r.pay && b - r.pay < HUB_ED });
    if !dusty && !(hub && res.is_ok() && bal(HUB, who) < HUB_ED) { must!(res.is_ok() == good, "trade", "{} {x} of {} ({i}->{o}) with limit {limit} gives {res:?}, expected {good}", if sell { "selling" } else { "buying" }, if sell { i } else { o }); }
    if res.is_err() { must!(see() == s0, "refused", "a refused trade changed something"); return Ok(false); }
    let r = match r { Some(r) => r, None => return wrong("trade", "a trade went through that has no price") };
    let s1 = see();
    let w = WHO.iter().position(|w| *w == who).unwrap();
    let (ii, oo) = (i as usize - 1, o as usize - 1);
    let (paid, got) = (s0.bal[w][ii] - s1.bal[w][ii], s1.bal[w][oo] - s0.bal[w][oo]);
    let swept = if hub && s1.bal[w][ii] == 0 { paid - r.pay.min(paid) } else { 0 };
    must!(paid == r.pay + swept && swept < HUB_ED && got == r.get, "trade", "paid {paid}, got {got}; expected {} and {}", r.pay, r.get);
    must!(if sell { paid == x + swept && got >= limit } else { got == x && paid <= limit.saturating_add(swept) }, "limit", "asked for {x} with limit {limit}, paid {paid}, got {got}");
    must!(matches!(quote, Ok(q) if q == if sell { got } else { paid - swept }), "quote", "quoted {quote:?}, paid {paid}, got {got}");
    let t = taken(r.fee);
    let o1 = s1.asset[oo].unwrap();
    let hdx_out = if o == HDX { r.hdx } else { 0 };
    must!((o1.0, o1.1) == (r.out.0 - t, r.out.1 + hdx_out), "state", "asset {o} ends with {:?}, expected {:?} less {t} taken from the fee", (o1.0, o1.1), r.out);
    let o0 = s0.asset[oo].unwrap();
    must!(prod((o1.0, o1.1)) >= prod((o0.0, o0.1)), "product", "asset {o}: {:?} -> {:?}", (o0.0, o0.1), (o1.0, o1.1));
    if !hub {
        let (i0, i1) = (s0.asset[ii].unwrap(), s1.asset[ii].unwrap());
        let hdx_in = if i == HDX { r.hdx } else { 0 };
        must!((i1.0, i1.1) == (r.inn.0, r.inn.1 + hdx_in), "state", "asset {i} ends with {:?}, expected {:?}", (i1.0, i1.1), r.inn);
        must!(prod((i1.0, i1.1)) >= prod((i0.0, i0.1)), "product", "asset {i}: {:?} -> {:?}", (i0.0, i0.1), (i1.0, i1.1));
        must!(s1.hubs <= s0.hubs, "hub_minted", "a trade raised the hub asset in the pool {} -> {}", s0.hubs, s1.hubs);
        must!(s0.issuance[0] - s1.issuance[0] == s0.hubs - s1.hubs, "hub_minted", "the hub asset left the pool without being burnt");
    } else {
        must!(s1.hubs == s0.hubs + r.pay, "hub_minted", "the pool received {} of the hub asset, was paid {}", s1.hubs - s0.hubs, r.pay);
    }
    must!(Some(s1.imb) == imb_after_from(s0.imb.0, r.imb), "imbalance", "imbalance {:?} -> {:?} by {:?}", s0.imb, s1.imb, r.imb);
    for (k, a) in ASSETS.iter().enumerate() {
        if *a != i && *a != o {
            let want = s0.asset[k].map(|mut z| { if *a == HDX { z.1 += r.hdx; } z });
            must!(s1.asset[k] == want, "bystander", "asset {a} not in the trade went {:?} -> {:?}", s0.asset[k], s1.asset[k]);
        } else if *a != HUB {
            let (p, q) = (s0.asset[k].unwrap(), s1.asset[k].unwrap());
            must!((p.2, p.3, p.4, p.5) == (q.2, q.3, q.4, q.5), "bystander", "a trade changed shares, cap or state of asset {a}: {p:?} -> {q:?}");
        }
        if *a != HUB { must!(s0.issuance[k] == s1.issuance[k], "issuance", "issuance of {a} changed"); }
    }
    must!(s0.pos == s1.pos, "bystander", "a trade changed a position");
    // the hooks are told what happened
    let q = |s: &AssetReserveState<u128>| quad(s);
    let so = so.unwrap();
    let after_o = (r.out.0, r.out.1, so.shares, so.protocol_shares);
    let mut want = vec![];
    if hub { want.push(Told::Hub(Info { id: o, before: q(&so), after: after_o, safe: false })); } else {
        let si = si.unwrap();
        want.push(Told::Trade(Info { id: i, before: q(&si), after: (r.inn.0, r.inn.1, si.shares, si.protocol_shares), safe: false }, Info { id: o, before: q(&so), after: after_o, safe: false }));
    }
    let t = TOLD.with(|t| t.borrow().clone());
    let got_info: Vec<Told> = t.iter().filter(|x| matches!(x, Told::Trade(..) | Told::Hub(_))).cloned().collect();
    must!(got_info == want, "hooks", "hooks were told {got_info:?}, expected {want:?}");
    must!(t.contains(&Told::Fee(o, r.fee.saturating_sub(1), who)), "hooks", "the fee hook was not offered {} of asset {o} for trader {who}: {t:?}", r.fee.saturating_sub(1));
    let liq: Vec<&Told> = t.iter().filter(|x| matches!(x, Told::Liq(_))).collect();
    must!(liq.len() == (r.hdx > 0) as usize && liq.iter().all(|x| matches!(x, Told::Liq(f) if f.id == HDX && f.after.1 == f.before.1 + r.hdx && f.after.0 == f.before.0)), "hooks", "protocol fee {} to HDX was reported as {liq:?}", r.hdx);
    Ok(true)
}
fn imb_after_from(v: u128, d: BalanceUpdate<u128>) -> Option<(u128, bool)> { match d { Increase(x) => if x <= v { Some((v - x, true)) } else { None }, Decrease(x) => Some((v + x, true)) } }

fn step(act: &Act) -> Result<bool, Wrong> {
    TOLD.with(|t| t.borrow_mut().clear());
    let s0 = see();
    let liqs = || TOLD.with(|t| t.borrow().clone());
    let ok = match act.clone() {
        Act::Sell(w, i, o, a, l) => trade(true, w, i, o, a, l)?,
        Act::Buy(w, i, o, a, l) => trade(false, w, i, o, a, l)?,
        Act::Add(who, a, x, l) => {
            let s = st(a);
            let x = amt(x, s.as_ref().map_or(30, |s| s.reserve));
            let c = s.as_ref().and_then(|s| m::calculate_add_liquidity_state_changes(&ms(s), x, imb(), s0.hubs));
            let min = c.as_ref().map_or(0, |c| lim_min(l, *c.asset.delta_shares));
            let n = s.as_ref().zip(c.as_ref()).and_then(|(s, c)| ms(s).delta_update(&c.asset));
            let good = x >= MIN_LIQ && bal(a, who) >= x && oracle_mode() != 2 && match (&s, &c, &n) {
                (Some(s), Some(c), Some(n)) => flag(s, 4) && *c.asset.delta_shares >= min && imb_after(c.delta_imbalance).is_some()
                    // hub_reserve / total <= cap, with 18 decimals
                    && U256::from(n.hub_reserve) * U256::from(10u128.pow(18)) / U256::from(s0.hubs + *c.asset.delta_hub_reserve) <= U256::from(s.cap),
                _ => false,
            };
            let r = call(|| if matches!(l, Lim::Open) { Omnipool::add_liquidity(signed(who), a, x) } else { Omnipool::add_liquidity_with_limit(signed(who), a, x, min) });
            must!(r.is_ok() == good, "add", "adding {x} of {a} gives {r:?}, expected {good}");
            if good {
                let (s, c, n, s1) = (s.unwrap(), c.unwrap(), n.unwrap(), see());
                let k = a as usize - 1;
                let id = s0.next;
                let p = s1.pos.get(&id);
                must!(s1.next == id + 1 && p == Some(&(a, x, *c.asset.delta_shares, (n.hub_reserve, n.reserve), Some(who))), "position", "new position {id} of {who} is {p:?}; expected {x}, {}, {:?}", *c.asset.delta_shares, (n.hub_reserve, n.reserve));
                let z = s1.asset[k].unwrap();
                must!((z.0, z.1, z.2, z.3, z.4, z.5) == (s.reserve + x, n.hub_reserve, n.shares, s.protocol_shares, s.cap, s.tradable.bits()), "add", "asset {a} -> {z:?}");
                // shares are not diluted, and the price moves by less than a unit
                must!(prod((z.0, s.shares)) >= prod((s.reserve, z.2)), "dilution", "asset {a}: {}/{} -> {}/{}", s.reserve, s.shares, z.0, z.2);
                must!(prod((z.1, s.reserve)) <= prod((s.hub_reserve, z.0)) && prod((z.1 + 2 + x / E18, s.reserve)) > prod((s.hub_reserve, z.0)), "price", "asset {a}: {}/{} -> {}/{}", s.hub_reserve, s.reserve, z.1, z.0);
                must!(s1.issuance[0] - s0.issuance[0] == z.1 - s.hub_reserve, "hub_minted", "hub asset issuance");
                must!(Some(s1.imb) == imb_after_from(s0.imb.0, c.delta_imbalance), "imbalance", "{:?} -> {:?}", s0.imb, s1.imb);
                let mut pp = s1.pos.clone(); pp.remove(&id);
                must!(pp == s0.pos, "bystander", "adding liquidity changed another position");
                must!(liqs() == vec![Told::Liq(Info { id: a, before: quad(&s), after: (z.0, z.1, z.2, z.3), safe: false })], "hooks", "told {:?}", liqs());
            }
            good
        }
        Act::Remove(who, id, x, l) => {
            let p = pos(id);
            let x = amt(x, p.as_ref().map_or(5, |p| p.shares));
            let a = p.as_ref().map_or(0, |p| p.asset_id);
            let s = if a == 0 { None } else { st(a) };
            let c = p.as_ref().zip(s.as_ref()).and_then(|(p, s)| {
                if x > p.shares { return None; }
                let o = oracle_price(a).ok()?;
                let f = m::calculate_withdrawal_fee(FixedU128::checked_from_rational(s.hub_reserve, s.reserve)?, FixedU128::checked_from_rational(o.n, o.d)?, MinFee::get());
                m::calculate_remove_liquidity_state_changes(&ms(s), x, &m::types::Position { amount: p.amount, shares: p.shares, price: p.price }, imb(), s0.hubs, f)
            });
            let min = c.as_ref().map_or(0, |c| lim_min(l, *c.asset.delta_reserve));
            let n = s.as_ref().zip(c.as_ref()).and_then(|(s, c)| ms(s).delta_update(&c.asset));
            let safe = s.as_ref().map_or(false, |s| s.tradable.bits() & 3 == 0 && flag(s, 8));
            let good = x > 0 && owner(id) == Some(who) && (safe || oracle_mode() != 2) && oracle_mode() != 3 && oracle_mode() != 5 && s.as_ref().map_or(true, |s| s.hub_reserve > 0) && match (&s, &c, &n) {
                (Some(s), Some(c), Some(_)) => flag(s, 8) && *c.asset.delta_reserve >= min && imb_after(c.delta_imbalance).is_some() && s.reserve >= *c.asset.delta_reserve,
                _ => false,
            };
            let r = call(|| if matches!(l, Lim::Open) { Omnipool::remove_liquidity(signed(who), id, x) } else { Omnipool::remove_liquidity_with_limit(signed(who), id, x, min) });
            must!(r.is_ok() == good, "remove", "removing {x} of position {id} {p:?} gives {r:?}, expected {good}");
            if good {
                let (p, s, c, n, s1) = (p.unwrap(), s.unwrap(), c.unwrap(), n.unwrap(), see());
                let (k, w) = (a as usize - 1, WHO.iter().position(|w| *w == who).unwrap());
                let z = s1.asset[k].unwrap();
                must!((z.0, z.1, z.2, z.3, z.4, z.5) == (n.reserve, n.hub_reserve, n.shares, n.protocol_shares, s.cap, s.tradable.bits()), "remove", "asset {a} -> {z:?}, expected {n:?}");
                let got = s1.bal[w][k] - s0.bal[w][k];
                must!(got == *c.asset.delta_reserve && got >= min, "remove", "received {got}, expected {}", *c.asset.delta_reserve);
                // never more than the share of the reserve
                must!(prod((got, s.shares)) <= prod((s.reserve, x)), "overpaid", "{x} of {} shares of {} paid {got}", s.shares, s.reserve);
                must!(z.0 == 0 || z.2 == 0 || prod((z.0, s.shares)) >= prod((s.reserve, z.2)), "dilution", "asset {a}: {}/{} -> {}/{}", s.reserve, s.shares, z.0, z.2);
                must!(s1.bal[w][0] - s0.bal[w][0] == if s0.bal[w][0] == 0 && c.lp_hub_amount < HUB_ED { 0 } else { c.lp_hub_amount }, "hub_paid", "paid {} of the hub asset, expected {}", s1.bal[w][0] - s0.bal[w][0], c.lp_hub_amount);
                must!(s1.issuance[0] <= s0.issuance[0], "hub_minted", "withdrawing {x} shares minted {} of the hub asset; {c} ", s1.issuance[0] - s0.issuance[0], c = format!("{:?} hub to the provider {}, {:?}", c.asset, c.lp_hub_amount, p));
                let left = p.shares - x;
                let np = s1.pos.get(&id);
                if left == 0 { must!(np.is_none() && owner(id).is_none(), "position", "an empty position remains: {np:?}"); }
                else { must!(np == Some(&(a, p.amount - *c.delta_position_reserve, left, p.price, Some(who))), "position", "position {p:?} less {x} is {np:?}"); }
                must!(Some(s1.imb) == imb_after_from(s0.imb.0, c.delta_imbalance), "imbalance", "{:?} -> {:?}", s0.imb, s1.imb);
                let (mut a0, mut a1) = (s0.pos.clone(), s1.pos.clone()); a0.remove(&id); a1.remove(&id);
                must!(a0 == a1, "bystander", "removing liquidity changed another position");
                must!(liqs() == vec![Told::Liq(Info { id: a, before: quad(&s), after: (z.0, z.1, z.2, z.3), safe })], "hooks", "told {:?} (safe withdrawal {safe})", liqs());
            }
            good
        }
        Act::Sacrifice(who, id) => {
            let p = pos(id);
            let good = p.is_some() && owner(id) == Some(who);
            let r = call(|| Omnipool::sacrifice_position(signed(who), id));
            must!(r.is_ok() == good, "sacrifice", "sacrificing position {id} of {:?} by {who} gives {r:?}", s0.pos.get(&id));
            if good {
                let (p, s1) = (p.unwrap(), see());
                let k = p.asset_id as usize - 1;
                let mut want = s0.clone();
                want.pos.remove(&id);
                want.asset[k].as_mut().unwrap().3 += p.shares;
                must!(s1 == want && owner(id).is_none(), "sacrifice", "{s0:?} -> {s1:?}");
            }
            good
        }
        Act::GivePosition(from, to, id) => owner(id) == Some(from) && call(|| <Uniques as frame_support::traits::tokens::nonfungibles::Transfer<u64>>::transfer(&77, &id, &to)).is_ok(),
        Act::AddToken(b, a, price, own) => {
            let price = FixedU128::from_inner(price);
            let amount = bal(a, pool());
            let hub = price.checked_mul_int(amount);
            let d = hub.and_then(|h| m::calculate_delta_imbalance(h, imb(), s0.hubs));
            let good = matches!(b, By::Root) && s0.asset[a as usize - 1].is_none() && price.into_inner() > 0 && amount >= 20 && hub.is_some() && d.is_some() && imb_after(Decrease(d.unwrap_or(0))).is_some() && (s0.hubs + hub.unwrap_or(0) >= HUB_ED);
            let r = call(|| Omnipool::add_token(by(b), a, price, Permill::from_percent(60), own));
            must!(r.is_ok() == good, "add_token", "add_token of {amount} at {price:?} gives {r:?}, expected {good}");
            if good {
                let (s1, h) = (see(), hub.unwrap());
                must!(s1.asset[a as usize - 1] == Some((amount, h, amount, 0, 600_000_000_000_000_000, 15)), "add_token", "new asset is {:?}", s1.asset[a as usize - 1]);
                must!(s1.pos.get(&s0.next) == Some(&(a, amount, amount, (price.into_inner(), FixedU128::DIV), Some(own))) && s1.next == s0.next + 1, "position", "initial position {:?}", s1.pos.get(&s0.next));
                must!(s1.issuance[0] - s0.issuance[0] == h && s1.bal == s0.bal, "hub_minted", "minted {}", s1.issuance[0] - s0.issuance[0]);
                must!(s1.imb.0 - s0.imb.0 == d.unwrap(), "imbalance", "{:?} -> {:?}", s0.imb, s1.imb);
                must!(liqs() == vec![Told::Liq(Info { id: a, before: (0, 0, 0, 0), after: (amount, h, amount, 0), safe: false })], "hooks", "told {:?}", liqs());
            }
            good
        }
        Act::RemoveToken(b, a) => {
            let s = st(a);
            let d = s.as_ref().and_then(|s| m::calculate_delta_imbalance(s.hub_reserve, imb(), s0.hubs));
            let good = matches!(b, By::Root) && s.as_ref().map_or(false, |s| s.tradable.bits() == 0 && s.shares == s.protocol_shares) && d.and_then(|d| imb_after(Increase(d))).is_some();
            let r = call(|| Omnipool::remove_token(by(b), a, BEN));
            must!(r.is_ok() == good, "remove_token", "remove_token({a}) of {:?} gives {r:?}, expected {good}", s0.asset[a as usize - 1]);
            if good {
                let (s, s1) = (s.unwrap(), see());
                must!(s1.asset[a as usize - 1].is_none() && bal(a, pool()) == 0 && s1.bal[4][a as usize - 1] - s0.bal[4][a as usize - 1] == s.reserve, "remove_token", "{s1:?}");
                must!(s0.hubs - s1.hubs == s.hub_reserve && s0.issuance[0] - s1.issuance[0] == s.hub_reserve && s0.pos == s1.pos, "remove_token", "{s0:?} -> {s1:?}");
            }
            good
        }
        Act::WithdrawProtocol(b, a, x, at_spot) => {
            let s = st(a);
            let x = amt(x, s.as_ref().map_or(3, |s| s.protocol_shares));
            let price = s.as_ref().map_or((1, 1), |s| if at_spot { (s.hub_reserve, s.reserve) } else { (s.hub_reserve / 2, s.reserve) });
            let c = s.as_ref().and_then(|s| m::calculate_remove_liquidity_state_changes(&ms(s), x, &m::types::Position { amount: 0, shares: x, price }, imb(), s0.hubs, FixedU128::from_inner(0)));
            let n = s.as_ref().zip(c.as_ref()).and_then(|(s, c)| ms(s).delta_update(&c.asset));
            let good = matches!(b, By::Root) && match (&s, &c, &n) { (Some(s), Some(c), Some(_)) => x <= s.protocol_shares && imb_after(c.delta_imbalance).is_some(), _ => false };
            let r = call(|| Omnipool::withdraw_protocol_liquidity(by(b), a, x, price, BEN));
            must!(r.is_ok() == good, "withdraw_protocol", "withdrawing {x} protocol shares of {a} gives {r:?}, expected {good}");
            if good {
                let (s, c, n, s1) = (s.unwrap(), c.unwrap(), n.unwrap(), see());
                let z = s1.asset[a as usize - 1].unwrap();
                let got = s1.bal[4][a as usize - 1] - s0.bal[4][a as usize - 1];
                must!(got == *c.asset.delta_reserve && prod((got, s.shares)) <= prod((s.reserve, x)), "withdraw_protocol", "{x} of {} shares of {} paid {got}", s.shares, s.reserve);
                must!((z.0, z.1, z.2) == (n.reserve, n.hub_reserve, n.shares) && z.2 == s.shares - x && z.3 == s.protocol_shares - x, "withdraw_protocol", "asset {a} -> {z:?}");
                must!(s1.bal[4][0] - s0.bal[4][0] == if s0.bal[4][0] == 0 && c.lp_hub_amount < HUB_ED { 0 } else { c.lp_hub_amount }, "hub_paid", "paid {}", s1.bal[4][0]);
                must!(s0.pos == s1.pos, "bystander", "positions changed");
                must!(liqs() == vec![Told::Liq(Info { id: a, before: quad(&s), after: (z.0, z.1, z.2, z.3), safe: true })], "hooks", "told {:?}", liqs());
            }
            good
        }
        Act::SetTradable(b, a, f) => {
            let t = Tradability::from_bits_truncate(f);
            let good = matches!(b, By::Tech) && if a == HUB { f & 12 == 0 } else { s0.asset[a as usize - 1].is_some() };
            let r = call(|| Omnipool::set_asset_tradable_state(by(b), a, t));
            must!(r.is_ok() == good, "tradable", "setting state {f} of {a} gives {r:?}");
            let mut want = s0.clone();
            if good { if a == HUB { want.hubtrade = f & 3 } else { want.asset[a as usize - 1].as_mut().unwrap().5 = f } }
            must!(see() == want, "tradable", "state {f} of {a}: {:?}", see());
            good
        }
        Act::SetCap(b, a, pct) => {
            let good = matches!(b, By::Tech) && s0.asset[a as usize - 1].is_some();
            let r = call(|| Omnipool::set_asset_weight_cap(by(b), a, Permill::from_percent(pct)));
            must!(r.is_ok() == good, "cap", "setting cap of {a} gives {r:?}");
            let mut want = s0.clone();
            if good { want.asset[a as usize - 1].as_mut().unwrap().4 = pct as u128 * 10u128.pow(16) }
            must!(see() == want, "cap", "cap {pct} of {a}: {:?}", see());
            good
        }
        Act::Refund(b, a, x) => {
            let held = bal(a, pool());
            let x = amt(x, held);
            let good = matches!(b, By::Root) && a != HUB && s0.asset[a as usize - 1].is_none() && x <= held;
            let r = call(|| Omnipool::refund_refused_asset(by(b), a, x, 3));
            must!(r.is_ok() == good, "refund", "refunding {x} of {held} of asset {a} gives {r:?}");
            if good { must!(bal(a, 3) == s0.bal[2][a as usize - 1] + x && bal(a, pool()) + x == held, "refund", "balances after refunding {x}"); }
            good
        }
        Act::Donate(who, a, x) => call(|| <Tokens as MultiCurrency<u64>>::transfer(a, &who, &pool(), x)).is_ok(),
        Act::Oracle(m) => { unhashed::put(b":oracle", &m); true }
    };
    let s1 = see();
    if !ok { must!(s0 == s1, "refused", "a refused call changed something"); }
    let actor = match act { Act::Sell(w, ..) | Act::Buy(w, ..) | Act::Add(w, ..) | Act::Remove(w, ..) | Act::Sacrifice(w, ..) | Act::Donate(w, ..) => *w, Act::Refund(..) => 3, _ => BEN };
    for (k, w) in WHO.iter().enumerate() { if *w != actor && *w != BEN { must!(s0.bal[k] == s1.bal[k], "bystander", "account {w} was touched: {:?} -> {:?}", s0.bal[k], s1.bal[k]); } }
    state_ok(&s1)?;
    Ok(ok)
}

fn setup(name: &str, listed: &[(AssetId, u128, u128)], unlisted: u128, take: u8, fund: u128, extra: &[Act]) -> Start<()> {
    start(name, || {
        for w in [1u64, 2, BEN] { for a in ASSETS { if a != HUB || w == 2 { let _ = <Tokens as MultiCurrency<u64>>::deposit(a, &w, fund); } } }
        let _ = <Tokens as MultiCurrency<u64>>::deposit(3, &3, 12);
        unhashed::put(b":take", &take);
        for (a, x, price) in listed {
            <Tokens as MultiCurrency<u64>>::deposit(*a, &pool(), *x).unwrap();
            call(|| Omnipool::add_token(root(), *a, FixedU128::from_inner(*price), Permill::from_percent(100), 1)).expect("listed");
        }
        if unlisted > 0 { <Tokens as MultiCurrency<u64>>::deposit(4, &pool(), unlisted).unwrap(); }
        for a in extra { match step(a) { Ok(true) => {}, Ok(false) => panic!("{a:?} refused in the start state"), Err(w) => panic!("{a:?} in the start state: {} {}", w.0, w.1) } }
    })
}
const E18: u128 = 1_000_000_000_000_000_000;

fn main() {
    let ck = kit::Check::new("P02");
    let two = [(HDX, 900, E18 / 2), (3, 600, 2 * E18)];
    // trading and liquidity
    let acts = |_: &()| {
        let mut v = vec![];
        for w in [2, 3] {
            for (i, o) in [(2, 3), (3, 2), (3, 4), (1, 3), (1, 2), (3, 1), (3, 3)] {
                for x in [N(1), N(2), Part(7), Part(3), PartPlus1(3)] { v.push(Act::Sell(w, i, o, x, Lim::Exact)); v.push(Act::Buy(w, i, o, x, Lim::Exact)); }
                v.push(Act::Sell(w, i, o, Part(7), Lim::Tight)); v.push(Act::Buy(w, i, o, Part(7), Lim::Tight));
            }
        }
        for w in [1, 2] {
            for a in [1, 2, 3] { for x in [N(9), N(10), Part(3)] { v.push(Act::Add(w, a, x, Lim::Exact)); } v.push(Act::Add(w, a, Part(3), Lim::Tight)); v.push(Act::Add(w, a, N(12), Lim::Open)); }
            for p in [0, 1, 2] { for x in [N(0), N(1), Part(2), All, AllPlus1] { v.push(Act::Remove(w, p, x, Lim::Exact)); } v.push(Act::Remove(w, p, Part(2), Lim::Tight)); v.push(Act::Sacrifice(w, p)); }
        }
        v.push(Act::GivePosition(1, 2, 1));
        v.push(Act::Donate(2, 3, 50)); v.push(Act::Donate(2, 2, 7));
        for o in [1, 2, 3, 4, 5] { v.push(Act::Oracle(o)); }
        v
    };
    let extra = &[Act::Sell(2, 2, 3, N(200), Lim::Open), Act::Buy(2, 2, 3, N(30), Lim::Open), Act::Add(2, 3, N(100), Lim::Exact)];
    let trading = vec![
        setup("two assets, fees stay", &two, 0, 0, 2000, extra),
        setup("two assets, fees taken", &two, 0, 1, 2000, extra),
        setup("hub asset sold before", &two, 0, 1, 2000, &[Act::Sell(2, 1, 3, N(100), Lim::Open), Act::Add(2, 2, N(100), Lim::Exact)]),
        setup("greedy fee hook", &two, 0, 2, 2000, &[Act::Add(2, 2, N(100), Lim::Exact)]),
        setup("lying fee hook", &two, 0, 3, 2000, &[Act::Add(2, 2, N(100), Lim::Exact)]),
    ];
    World { name: "trading", depth: ck.pick(3, 4), events: false, actions: &acts, step: &|a: &Act, _: &mut ()| step(a), prepare: &|| {} }.explore(&ck, trading);
    // governance of the pool, with a little trading in between
    let acts = |_: &()| {
        let mut v = vec![];
        for b in [By::Root, By::Tech, By::User] {
            v.push(Act::AddToken(b, 4, E18, 2)); v.push(Act::AddToken(b, 3, E18 / 3, 1)); v.push(Act::RemoveToken(b, 3)); v.push(Act::RemoveToken(b, 4));
            v.push(Act::SetTradable(b, 3, 0)); v.push(Act::SetTradable(b, 4, 12)); v.push(Act::SetTradable(b, HUB, 0)); v.push(Act::SetCap(b, 3, 30));
            v.push(Act::WithdrawProtocol(b, 3, Part(2), true)); v.push(Act::Refund(b, 4, Part(2))); v.push(Act::Refund(b, 3, N(5))); 
        }
        for f in [1, 2, 4, 8, 12, 15] { v.push(Act::SetTradable(By::Tech, 3, f)); }
        for f in [1, 3, 4, 8] { v.push(Act::SetTradable(By::Tech, HUB, f)); }
        v.push(Act::AddToken(By::Root, 4, 0, 2)); v.push(Act::AddToken(By::Root, 4, 1, 2));
        for x in [All, AllPlus1] { for p in [true, false] { v.push(Act::WithdrawProtocol(By::Root, 3, x, p)); } v.push(Act::Refund(By::Root, 4, x)); v.push(Act::Refund(By::Root, HUB, N(1))); }
        v.push(Act::RemoveToken(By::Root, HDX)); v.push(Act::SetTradable(By::Tech, HDX, 0)); v.push(Act::SetCap(By::Tech, 2, 100));
        for p in [0, 1, 2, 3] { v.push(Act::Sacrifice(1, p)); v.push(Act::Sacrifice(2, p)); v.push(Act::Remove(1, p, Part(3), Lim::Open)); v.push(Act::Remove(2, p, All, Lim::Open)); }
        for (i, o) in [(2, 3), (3, 2), (1, 3), (4, 2), (2, 4), (3, 1)] { v.push(Act::Sell(2, i, o, Part(9), Lim::Open)); v.push(Act::Buy(2, i, o, Part(9), Lim::Open)); }
        for a in [1, 2, 3, 4] { v.push(Act::Add(2, a, Part(4), Lim::Open)); }
        v.push(Act::Donate(2, 4, 30)); v.push(Act::Oracle(2)); v.push(Act::Oracle(0)); v.push(Act::GivePosition(1, 2, 1));
        v
    };
    let gov = vec![
        setup("unlisted asset waiting", &two, 200, 0, 2000, &[Act::Add(2, 3, N(100), Lim::Exact)]),
        setup("too little waiting", &two, 19, 1, 2000, &[Act::Sell(2, 1, 3, N(60), Lim::Open)]),
        setup("nearly removed", &two, 19, 1, 2000, &[Act::Add(2, 3, N(100), Lim::Exact), Act::Sell(2, 1, 3, N(60), Lim::Open), Act::Sell(2, 2, 3, N(160), Lim::Open), Act::Sacrifice(1, 1), Act::Sacrifice(2, 2)]),
    ];
    World { name: "governance", depth: ck.pick(3, 4), events: false, actions: &acts, step: &|a: &Act, _: &mut ()| step(a), prepare: &|| {} }.explore(&ck, gov);
    const U: u128 = 1_000_000_000_000;
    let acts = |_: &()| {
        let mut v = vec![];
        for (i, o) in [(2, 3), (3, 2), (3, 4), (4, 3), (1, 4), (1, 2)] { for x in [N(3), N(1_000_003), Part(1000), PartPlus1(3), Part(3)] { v.push(Act::Sell(2, i, o, x, Lim::Exact)); v.push(Act::Buy(2, i, o, x, Lim::Exact)); } }
        for a in [2, 3, 4] { for x in [N(11), Part(7)] { v.push(Act::Add(2, a, x, Lim::Exact)); } }
        for p in [0, 1, 2, 3] { for w in [1, 2] { for x in [N(1), Part(3), All] { v.push(Act::Remove(w, p, x, Lim::Exact)); } v.push(Act::Sacrifice(w, p)); } }
        v.push(Act::WithdrawProtocol(By::Root, 3, Part(2), true)); v.push(Act::WithdrawProtocol(By::Root, 3, All, false)); v.push(Act::Oracle(1));
        v
    };
    let large = vec![setup("amounts of 10^12 and up", &[(HDX, 936_329_588 * U, E18 / 79), (3, 100_000_000 * U * 1_000_000 + 13, E18 / 1_000_000 / 19), (4, 87_719_298, 1250 * 10_000 * E18)], 0, 1, 1 << 92, &[Act::Sell(2, 1, 3, N(31_337_000_001), Lim::Open), Act::Sell(2, 2, 4, N(77 * U), Lim::Open)])];
    World { name: "large", depth: ck.pick(3, 4), events: false, actions: &acts, step: &|a: &Act, _: &mut ()| step(a), prepare: &|| {} }.explore(&ck, large);
    ck.finish()
}
