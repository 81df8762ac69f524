//! P29: how the runtime executes XCM: which programs, for which fee, with which exchanges and deposits; on the real
//! runtime/adapters, with the real router behind the exchange.
use frame_support::{parameter_types, storage::unhashed, traits::{Contains, Get, Nothing}, weights::{Weight, WeightToFee}};
use runtime_adapters::{xcm_exchange::XcmAssetExchanger, xcm_execute_filter::AllowTransferAndSwap, MultiCurrencyTrader, ReroutingMultiCurrencyAdapter, ToFeeReceiver};
use hydradx_traits::{router::{ExecutorError, PoolType, RefundEdCalculator, Trade, TradeExecution}, NativePriceOracle};
use orml_traits::{parameter_type_with_key, MultiCurrency};
use orml_xcm_support::{OnDepositFail, UnknownAsset};
use pallet_transaction_multi_payment::DepositFee;
use polkadot_xcm::v4::{self, prelude::*, Instruction as I, MaybeErrorCode, QueryResponseInfo};
use sp_core::U256;
use sp_runtime::{traits::Convert, DispatchError, DispatchResult, FixedU128};
use std::{cell::{Cell, RefCell}, collections::BTreeMap};
use world::*;
use xcm_builder::TakeRevenue;
use xcm_executor::{traits::{AssetExchange, ConvertLocation, MatchesFungible, TransactAsset, WeightTrader}, AssetsInHolding};

frame_support::construct_runtime!(pub enum Rt { System: frame_system, Tokens: orml_tokens, Router: pallet_route_executor });
world::system!(Rt, ());
const ED: [u128; 5] = [10, 2, 5, 1, 4];
parameter_type_with_key! { pub Eds: |a: u32| -> Balance { ED[*a as usize] }; }
world::tokens!(Rt, Eds, Nothing, ());
type E = DispatchError;
use v4::AssetId;

// ---- locations and ids ----
fn at(a: u32) -> Location { Location::new(0, GeneralIndex(a as u128)) }
fn coin(a: u32, n: u128) -> Asset { (at(a), n).into() }
fn item(a: u32) -> Asset { Asset { id: AssetId(at(a)), fun: NonFungible(AssetInstance::Index(1)) } }
fn account(who: u64) -> Location { Location::new(0, AccountIndex64 { network: None, index: who }) }
/// assets 0..5 are the chain's
pub struct Ids;
impl Convert<Asset, Option<u32>> for Ids { fn convert(a: Asset) -> Option<u32> { match a.id.0 { Location { parents: 0, interior: X1(j) } => match j[0] { GeneralIndex(i) if i < 5 => Some(i as u32), _ => None }, _ => None } } }

// ---- 1. the filter ----
thread_local! { static LIMITS: Cell<(u16, u16)> = Cell::new((0, 0)); }
pub struct Deep; impl Get<u16> for Deep { fn get() -> u16 { LIMITS.with(|l| l.get().0) } }
pub struct Many; impl Get<u16> for Many { fn get() -> u16 { LIMITS.with(|l| l.get().1) } }
fn allowed(x: Xcm<()>, from: Location) -> bool { AllowTransferAndSwap::<Deep, Many, ()>::contains(&(from, x)) }
#[derive(Clone, Debug)]
enum Tree { Fine, Bad, Nest(Vec<Tree>) }
fn nest(k: usize, xcm: Xcm<()>) -> I<()> {
    let (assets, dest) = (AssetFilter::from(WildAsset::All), Location::parent());
    match k % 3 { 0 => InitiateReserveWithdraw { assets, reserve: dest, xcm }, 1 => DepositReserveAsset { assets, dest, xcm }, _ => TransferReserveAsset { assets: coin(1, 1).into(), dest, xcm } }
}
fn program(t: &[Tree], k: &mut usize) -> Xcm<()> {
    Xcm(t.iter().map(|t| { *k += 1; match t { Tree::Fine => { let g = good(); g[*k % g.len()].clone() } Tree::Bad => { let b = bad(); b[*k % b.len()].clone() } Tree::Nest(v) => { let i = *k; let x = program(v, k); nest(i, x) } } }).collect())
}
fn good() -> Vec<I<()>> {
    vec![ClearOrigin, ExchangeAsset { give: coin(1, 1).into(), want: coin(2, 1).into(), maximal: true }, WithdrawAsset(coin(1, 1).into()), TransferAsset { assets: coin(1, 1).into(), beneficiary: account(1) },
        DepositAsset { assets: WildAsset::All.into(), beneficiary: account(1) }, ExpectAsset(coin(1, 1).into()), SetFeesMode { jit_withdraw: true }, BuyExecution { fees: coin(1, 1), weight_limit: WeightLimit::Unlimited }]
}
fn bad() -> Vec<I<()>> {
    let info = QueryResponseInfo { destination: Location::parent(), query_id: 1, max_weight: Weight::zero() };
    let a: Assets = coin(1, 1).into();
    let f: AssetFilter = WildAsset::All.into();
    let l = Location::parent();
    vec![ReserveAssetDeposited(a.clone()), ReceiveTeleportedAsset(a.clone()), QueryResponse { query_id: 1, response: Response::Null, max_weight: Weight::zero(), querier: None },
        Transact { origin_kind: OriginKind::SovereignAccount, require_weight_at_most: Weight::zero(), call: vec![1u8].into() }, HrmpNewChannelOpenRequest { sender: 1, max_message_size: 1, max_capacity: 1 }, HrmpChannelAccepted { recipient: 1 },
        HrmpChannelClosing { initiator: 1, sender: 1, recipient: 1 }, DescendOrigin(Parachain(1).into()), ReportError(info.clone()), InitiateTeleport { assets: f.clone(), dest: l.clone(), xcm: Xcm(vec![]) }, ReportHolding { response_info: info.clone(), assets: f },
        RefundSurplus, SetErrorHandler(Xcm(vec![])), SetAppendix(Xcm(vec![])), ClearError, ClaimAsset { assets: a.clone(), ticket: l.clone() }, Trap(1), SubscribeVersion { query_id: 1, max_response_weight: Weight::zero() }, UnsubscribeVersion,
        BurnAsset(a), ExpectOrigin(None), ExpectError(None), ExpectTransactStatus(MaybeErrorCode::Success), QueryPallet { module_name: vec![], response_info: info.clone() }, ExpectPallet { index: 0, name: vec![], module_name: vec![], crate_major: 0, min_crate_minor: 0 },
        ReportTransactStatus(info), ClearTransactStatus, UniversalOrigin(Parachain(1)), ExportMessage { network: NetworkId::Polkadot, destination: Here, xcm: Xcm(vec![]) }, LockAsset { asset: coin(1, 1), unlocker: l.clone() }, UnlockAsset { asset: coin(1, 1), target: l.clone() },
        NoteUnlockable { asset: coin(1, 1), owner: l.clone() }, RequestUnlock { asset: coin(1, 1), locker: l.clone() }, SetTopic([0; 32]), ClearTopic, AliasOrigin(l), UnpaidExecution { weight_limit: WeightLimit::Unlimited, check_origin: None }]
}
/// all programs of n instructions, nested in all ways
fn forests(n: usize) -> Vec<Vec<Tree>> {
    if n == 0 { return vec![vec![]] }
    let mut r = vec![];
    for inner in 0..n {
        let heads: Vec<Tree> = if inner == 0 { vec![Tree::Fine, Tree::Bad, Tree::Nest(vec![])] } else { forests(inner).into_iter().map(Tree::Nest).collect() };
        for rest in forests(n - 1 - inner) { for h in &heads { let mut v = vec![h.clone()]; v.extend(rest.iter().cloned()); r.push(v) } }
    }
    r
}
fn size(t: &[Tree]) -> usize { t.iter().map(|t| 1 + if let Tree::Nest(v) = t { size(v) } else { 0 }).sum() }
fn depth(t: &[Tree]) -> usize { t.iter().map(|t| if let Tree::Nest(v) = t { 1 + depth(v) } else { 0 }).max().unwrap_or(0) }
fn clean(t: &[Tree]) -> bool { t.iter().all(|t| match t { Tree::Fine => true, Tree::Bad => false, Tree::Nest(v) => clean(v) }) }
fn filter(ck: &kit::Check) {
    let who = account(1);
    LIMITS.with(|l| l.set((3, 20)));
    let mut n = 0u64;
    let tell = |ok: bool, want: bool, what: String| if ok != want { ck.violation("filter", format!("[filter] {what}: allowed = {ok}, expected {want}, with limits {:?}", LIMITS.with(|l| l.get())), serde_json::json!({ "program": what })) };
    for (list, want) in [(good(), true), (bad(), false)] { for i in list { for k in 0..4 { n += 1; let x = if k == 0 { Xcm(vec![i.clone()]) } else { Xcm(vec![ClearOrigin, nest(k, Xcm(vec![ClearOrigin, i.clone(), ClearOrigin]))]) }; tell(allowed(x.clone(), who.clone()), want, format!("{x:?}")); tell(allowed(x.clone(), Location::here()), true, format!("from here {x:?}")); } } }
    for l in [Location::parent(), Location::new(1, Parachain(1)), account(0)] { let x = Xcm(vec![Trap(1)]); n += 1; tell(allowed(x, l.clone()), false, format!("trap from {l:?}")) }
    for s in 0..ck.pick(7usize, 8) { for f in forests(s) { for d in 0..=4u16 { for m in [0u16, 1, 2, 3, 4, 5, 6, 7, 8, u16::MAX] {
        if m != u16::MAX && (m as usize > s + 1 || (m as usize) + 2 < s) { continue }
        LIMITS.with(|l| l.set((d, m)));
        n += 1;
        let x = program(&f, &mut 0);
        tell(allowed(x, who.clone()), clean(&f) && size(&f) <= m as usize && depth(&f) <= d as usize, format!("{f:?}"));
        if ck.stop() { return }
    } } } }
    ck.add_states(n); ck.add_transitions(n); ck.add_traces(n);
    ck.section("filter", serde_json::json!({ "programs": n }));
}

// ---- 2. the trader ----
thread_local! { static PRICES: RefCell<[Option<u128>; 5]> = RefCell::new([None; 5]); static PAID: RefCell<Vec<(u64, u32, u128)>> = RefCell::new(vec![]); static RATE: Cell<u128> = Cell::new(1); }
pub struct Oracle;
impl NativePriceOracle<u32, FixedU128> for Oracle { fn price(a: u32) -> Option<FixedU128> { PRICES.with(|p| p.borrow()[a as usize]).map(FixedU128::from_inner) } }
pub struct Fees;
impl WeightToFee for Fees { type Balance = u128; fn weight_to_fee(w: &Weight) -> u128 { (w.ref_time() as u128).saturating_mul(RATE.with(|r| r.get())) } }
pub struct Receiver; impl Get<u64> for Receiver { fn get() -> u64 { 77 } }
pub struct Deposit;
impl DepositFee<u64, u32, u128> for Deposit { fn deposit_fee(w: &u64, a: u32, n: u128) -> DispatchResult { PAID.with(|p| p.borrow_mut().push((*w, a, n))); if a == 3 { Err(E::Other("no")) } else { Ok(()) } } }
type Trader = MultiCurrencyTrader<u32, u128, FixedU128, Fees, Oracle, Ids, ToFeeReceiver<u64, u32, u128, FixedU128, Ids, Deposit, Receiver>>;
const ONE: u128 = 1_000_000_000_000_000_000;
#[derive(Clone, Debug)]
enum Deal { Buy(u64, Vec<Asset>), Refund(u64), Price(u32, Option<u128>) }
fn cost(w: u64, price: u128) -> Option<u128> { u128::try_from(U256::from(w as u128 * RATE.with(|r| r.get())) * U256::from(price) / U256::from(ONE)).ok() }
#[derive(Clone, Debug, Default)]
struct Till { weight: u64, paid: BTreeMap<(Location, u128), u128>, got: BTreeMap<u32, u128>, back: BTreeMap<u32, u128> }
fn deal(t: &mut Trader, m: &mut Till, d: &Deal) -> Result<(), Wrong> {
    let ctx = XcmContext { origin: None, message_id: [0; 32], topic: None };
    match d {
        Deal::Price(a, p) => { PRICES.with(|x| x.borrow_mut()[*a as usize] = *p); Ok(()) }
        Deal::Buy(w, pay) => {
            let hold: AssetsInHolding = pay.clone().into();
            let got = t.buy_weight(Weight::from_parts(*w, 3), hold.clone(), &ctx);
            let first = hold.fungible.iter().next().map(|(id, n)| (id.clone(), *n));
            let price = first.as_ref().and_then(|(id, n)| Ids::convert(Asset { id: id.clone(), fun: Fungible(*n) })).and_then(|a| PRICES.with(|p| p.borrow()[a as usize]).map(|p| (a, p)));
            let want = match (first, price) {
                (Some((id, has)), Some((a, p))) => match cost(*w, p) {
                    None => Err(XcmError::Overflow),
                    Some(c) if c > has => Err(XcmError::TooExpensive),
                    Some(c) => {
                        m.weight = m.weight.saturating_add(*w);
                        *m.paid.entry((id.0.clone(), p)).or_default() += c; *m.got.entry(a).or_default() += c;
                        let mut r = hold.clone();
                        if has == c { r.fungible.remove(&id); } else { r.fungible.insert(id, has - c); }
                        Ok(r)
                    }
                },
                _ => Err(XcmError::AssetNotFound),
            };
            must!(got == want, "buy", "weight {w} for {pay:?}: {got:?}, not {want:?}");
            Ok(())
        }
        Deal::Refund(w) => {
            let got = t.refund_weight(Weight::from_parts(*w, 3), &ctx);
            let part = (*w).min(m.weight);
            m.weight -= part;
            let want = m.paid.iter().next().map(|((l, p), n)| (l.clone(), *p, *n)).map(|(l, p, n)| {
                let r = cost(part, p).unwrap_or(u128::MAX).min(n);
                if r == n { m.paid.remove(&(l.clone(), p)); } else { m.paid.insert((l.clone(), p), n - r); }
                *m.back.entry(Ids::convert((l.clone(), 1).into()).unwrap()).or_default() += r;
                Asset::from((l, r))
            });
            must!(got == want, "refund", "weight {w}: {got:?}, not {want:?}");
            for (a, n) in &m.back { must!(n <= &m.got[a], "more back than paid", "asset {a}: {n} of {}", m.got[a]) }
            Ok(())
        }
    }
}
fn trader(ck: &kit::Check) {
    let deals = vec![
        Deal::Buy(0, vec![coin(0, 5)]), Deal::Buy(3, vec![coin(0, 5)]), Deal::Buy(1000, vec![coin(1, 500)]), Deal::Buy(1000, vec![coin(1, 499), coin(2, 900)]), Deal::Buy(7, vec![coin(2, 1000), coin(3, 9)]), Deal::Buy(9, vec![coin(3, 30)]),
        Deal::Buy(5, vec![coin(4, 100)]), Deal::Buy(5, vec![coin(9, 100)]), Deal::Buy(5, vec![item(1)]), Deal::Buy(5, vec![item(0), coin(0, 6)]), Deal::Buy(5, vec![]), Deal::Buy(u64::MAX, vec![coin(2, u128::MAX)]),
        Deal::Refund(0), Deal::Refund(2), Deal::Refund(600), Deal::Refund(u64::MAX), Deal::Price(1, Some(ONE / 4)), Deal::Price(1, None), Deal::Price(2, Some(u128::MAX)),
    ];
    let len = ck.pick(4, 5);
    let mut n = 0u64; let mut runs = 0u64;
    for rate in [1u128, 3, 1 << 40, u64::MAX as u128] {
        RATE.with(|r| r.set(rate));
        let mut idx = vec![0usize; len];
        loop {
            runs += 1;
            PRICES.with(|p| *p.borrow_mut() = [Some(ONE), Some(ONE / 2), Some(ONE * 10 / 3), Some(ONE), None]);
            PAID.with(|p| p.borrow_mut().clear());
            let mut m = Till::default();
            let mut text = vec![];
            let r = kit::guarded(|| -> Result<(), Wrong> {
                let mut t = Trader::new();
                for i in &idx { text.push(format!("{:?}", deals[*i])); deal(&mut t, &mut m, &deals[*i])?; n += 1; }
                drop(t);
                // what was paid and not given back goes to the receiver of fees
                let want: Vec<(u64, u32, u128)> = m.paid.iter().map(|((l, _), n)| (77, Ids::convert((l.clone(), 1).into()).unwrap(), *n)).collect();
                let got = PAID.with(|p| p.borrow().clone());
                must!(got == want, "revenue", "deposited {got:?}, not {want:?}");
                for (a, n) in &m.got { let kept: u128 = got.iter().filter(|g| g.1 == *a).map(|g| g.2).sum(); must!(kept + m.back.get(a).copied().unwrap_or(0) == *n, "kept", "asset {a}") }
                Ok(())
            });
            match r { Ok(Ok(())) => {} Ok(Err(Wrong(k, t))) => ck.violation(format!("trader:{k}"), format!("[trader; rate {rate}; {}] {t}", text.join(" -> ")), serde_json::json!({ "deals": text, "rate": rate.to_string() })), Err(p) => ck.violation("trader:panic", format!("[trader; rate {rate}; {}] {p}", text.join(" -> ")), serde_json::json!({ "deals": text })) }
            if ck.stop() { return }
            let mut j = 0;
            while j < len { idx[j] += 1; if idx[j] < deals.len() { break } idx[j] = 0; j += 1 }
            if j == len { break }
        }
    }
    ck.add_states(n); ck.add_transitions(n); ck.add_traces(runs);
    ck.section("trader", serde_json::json!({ "sequences": runs, "deals": n }));
}

// ---- 3. the exchange ----
pub struct Temp; impl Get<u64> for Temp { fn get() -> u64 { 500 } }
const POOL: u64 = 9_000;
/// a market between each two assets, of the exact constant product, less one per cent
fn res(a: u32, b: u32) -> Result<(u64, u128, u128), E> { let w = POOL + (a.min(b) * 10 + a.max(b)) as u64; let (x, y) = (Tokens::free_balance(a, &w), Tokens::free_balance(b, &w)); if a == b || x == 0 || y == 0 { Err(E::Other("no market")) } else { Ok((w, x, y)) } }
fn out_for(a: u32, b: u32, x: u128) -> Result<u128, E> { let (_, r, s) = res(a, b)?; if x == 0 || x > r { return Err(E::Other("amount")) } let y = s * x / (r + x); Ok(y - y / 100) }
fn in_for(a: u32, b: u32, y: u128) -> Result<u128, E> { let (_, r, s) = res(a, b)?; if y == 0 || y >= s / 2 { return Err(E::Other("amount")) } let x = r * y / (s - y) + 1; Ok(x + x / 100) }
fn swap(who: u64, a: u32, b: u32, x: u128, y: u128) -> Result<(), E> { let w = res(a, b)?.0; <Tokens as MultiCurrency<u64>>::transfer(a, &who, &w, x)?; <Tokens as MultiCurrency<u64>>::transfer(b, &w, &who, y) }
pub struct Market;
impl TradeExecution<RuntimeOrigin, u64, u32, u128> for Market {
    type Error = E;
    fn calculate_sell(_: PoolType<u32>, a: u32, b: u32, x: u128) -> Result<u128, ExecutorError<E>> { out_for(a, b, x).map_err(ExecutorError::Error) }
    fn calculate_buy(_: PoolType<u32>, a: u32, b: u32, y: u128) -> Result<u128, ExecutorError<E>> { in_for(a, b, y).map_err(ExecutorError::Error) }
    fn execute_sell(o: RuntimeOrigin, _: PoolType<u32>, a: u32, b: u32, x: u128, m: u128) -> Result<(), ExecutorError<E>> { (|| { let w = frame_system::ensure_signed(o)?; let y = out_for(a, b, x)?; if y < m { return Err(E::Other("limit")) } swap(w, a, b, x, y) })().map_err(ExecutorError::Error) }
    fn execute_buy(o: RuntimeOrigin, _: PoolType<u32>, a: u32, b: u32, y: u128, m: u128) -> Result<(), ExecutorError<E>> { (|| { let w = frame_system::ensure_signed(o)?; let x = in_for(a, b, y)?; if x > m { return Err(E::Other("limit")) } swap(w, a, b, x, y) })().map_err(ExecutorError::Error) }
    fn get_liquidity_depth(_: PoolType<u32>, a: u32, b: u32) -> Result<u128, ExecutorError<E>> { res(a, b).map(|r| r.1).map_err(ExecutorError::Error) }
    fn calculate_spot_price_with_fee(_: PoolType<u32>, _: u32, _: u32) -> Result<FixedU128, ExecutorError<E>> { unimplemented!() }
}
pub struct Registry;
impl hydradx_traits::registry::Inspect for Registry {
    type AssetId = u32; type Location = u8;
    fn is_sufficient(_: u32) -> bool { true }
    fn exists(_: u32) -> bool { unimplemented!() } fn decimals(_: u32) -> Option<u8> { unimplemented!() } fn asset_type(_: u32) -> Option<hydradx_traits::registry::AssetKind> { unimplemented!() } fn is_banned(_: u32) -> bool { unimplemented!() }
    fn asset_name(_: u32) -> Option<Vec<u8>> { unimplemented!() } fn asset_symbol(_: u32) -> Option<Vec<u8>> { unimplemented!() } fn existential_deposit(_: u32) -> Option<u128> { unimplemented!() }
}
pub struct Refund; impl RefundEdCalculator<u128> for Refund { fn calculate() -> u128 { 1 } }
parameter_types! { pub DefaultPool: PoolType<u32> = PoolType::Omnipool; }
impl pallet_route_executor::Config for Rt { type RuntimeEvent = RuntimeEvent; type AssetId = u32; type Balance = u128; type NativeAssetId = frame_support::traits::ConstU32<0>; type Currency = Tokens; type InspectRegistry = Registry; type AMM = Market; type EdToRefundCalculator = Refund; type DefaultRoutePoolType = DefaultPool; type TechnicalOrigin = frame_system::EnsureRoot<u64>; type WeightInfo = (); }
type Exchange = XcmAssetExchanger<Rt, Temp, Ids, Tokens>;
#[derive(Clone, Debug)]
enum Swap { Swap { give: Vec<Asset>, want: Vec<Asset>, maximal: bool }, Donate(u32, u128) }
fn whole() -> [u128; 5] { [0, 1, 2, 3, 4].map(Tokens::total_issuance) }
/// the hops from one asset to another: a stored route, or directly
fn hops(a: u32, b: u32) -> Vec<(u32, u32)> { if unhashed::get::<bool>(b":via").is_some() && (a, b) == (1, 2) { vec![(1, 0), (0, 2)] } else if unhashed::get::<bool>(b":via").is_some() && (a, b) == (2, 1) { vec![(2, 0), (0, 1)] } else { vec![(a, b)] } }
fn fun(a: &Asset) -> Option<u128> { if let Fungible(n) = a.fun { Some(n) } else { None } }
/// what an exchange takes and returns, and the balances it leaves; None if it has to be refused
fn expect(give: &[Asset], want: &[Asset], maximal: bool) -> Option<(BTreeMap<u32, u128>, sp_io::Map)> {
    let hold: AssetsInHolding = give.to_vec().into();
    let wanted: Assets = want.to_vec().into();
    if hold.len() != 1 || wanted.len() != 1 { return None }
    let w = wanted.get(0)?.clone();
    let (id, n) = hold.fungible.iter().next()?;
    let (a, b) = (Ids::convert((id.0.clone(), *n).into())?, Ids::convert(w.clone())?);
    let m = fun(&w)?;
    let t = Temp::get();
    dry(|| {
        type T = Tokens;
        <T as MultiCurrency<u64>>::deposit(a, &t, *n).ok()?;
        let path = hops(a, b);
        // amounts along the path
        let mut v: Vec<(u32, u32, u128, u128)> = vec![];
        if maximal { let mut x = *n; for (p, q) in path { let y = out_for(p, q, x).ok()?; v.push((p, q, x, y)); x = y } if x < m { return None } }
        else { let mut y = m; for (p, q) in path.into_iter().rev() { let x = in_for(p, q, y).ok()?; v.push((p, q, x, y)); y = x } v.reverse(); if y > *n { return None } }
        for (p, q, x, y) in v { swap(t, p, q, x, y).ok()? }
        let mut r = BTreeMap::new();
        if !maximal { let left = T::free_balance(a, &t); if left > 0 { <T as MultiCurrency<u64>>::withdraw(a, &t, left).ok()?; r.insert(a, left); } }
        let got = T::free_balance(b, &t);
        <T as MultiCurrency<u64>>::withdraw(b, &t, got).ok()?;
        *r.entry(b).or_default() += got;
        Some((r, sp_io::with_ext(|e| e.map.clone())))
    })
}
/// without what blocks log
fn ledger(m: &sp_io::Map) -> sp_io::Map { let p = [frame_support::storage::storage_prefix(b"System", b"Events"), frame_support::storage::storage_prefix(b"System", b"EventCount"), frame_support::storage::storage_prefix(b"System", b"EventTopics")]; let mut m = m.clone(); m.retain(|k, _| !p.iter().any(|p| k.starts_with(p)) && k[..].starts_with(&frame_support::storage::storage_prefix(b"Tokens", b"Accounts")[..16])); m }
fn exchange(a: &Swap, _: &mut ()) -> Result<bool, Wrong> {
    let (give, want, maximal) = match a {
        Swap::Donate(c, n) => return Ok(<Tokens as MultiCurrency<u64>>::transfer(*c, &1, &Temp::get(), *n).is_ok()),
        Swap::Swap { give, want, maximal } => (give, want, *maximal),
    };
    let hold: AssetsInHolding = give.clone().into();
    let before = sp_io::with_ext(|e| e.map.clone());
    let issue = whole();
    let temp = [0, 1, 2, 3, 4].map(|c| Tokens::free_balance(c, &Temp::get()));
    let want_r = expect(give, want, maximal);
    let got = Exchange::exchange_asset(None, hold.clone(), &want.clone().into(), maximal);
    match (&got, want_r) {
        (Err(back), None) => { must!(*back == hold, "given back", "{a:?}: {back:?}"); sp_io::with_ext(|e| ledger(&e.map) == ledger(&before)).then_some(()).ok_or(Wrong("refused".into(), format!("{a:?}: refused but balances changed")))?; must!(whole() == issue, "issuance", "{a:?}"); Ok(false) }
        (Ok(r), Some((w, state))) => {
            let r: BTreeMap<u32, u128> = r.fungible.iter().map(|(id, n)| (Ids::convert((id.0.clone(), *n).into()).unwrap(), *n)).collect();
            must!(r == w, "received", "{a:?}: {r:?}, not {w:?}");
            sp_io::with_ext(|e| ledger(&e.map) == ledger(&state)).then_some(()).ok_or(Wrong("balances".into(), format!("{a:?}: other balances than expected")))?;
            // tokens neither appear nor vanish: what is minted is what was held, what is burnt is what will be held
            let held: BTreeMap<u32, u128> = hold.fungible.iter().map(|(id, n)| (Ids::convert((id.0.clone(), *n).into()).unwrap(), *n)).collect();
            for c in 0..5u32 { must!(issue[c as usize] + held.get(&c).unwrap_or(&0) == whole()[c as usize] + r.get(&c).unwrap_or(&0), "conservation", "{a:?}: asset {c}") }
            // and nothing of it stays behind
            for c in 0..5u32 { must!(Tokens::free_balance(c, &Temp::get()) <= temp[c as usize], "left behind", "{a:?}: asset {c}") }
            let (g, m) = (fun(&give[0]).unwrap(), fun(&want[0]).unwrap());
            let (i, o) = (Ids::convert(give[0].clone()).unwrap(), Ids::convert(want[0].clone()).unwrap());
            if temp == [0; 5] {
                if maximal { must!(r[&o] >= m && r.len() == 1, "limit", "{a:?}: {r:?}") } else { must!(r[&o] == m && r.get(&i).map_or(true, |l| *l < g), "limit", "{a:?}: {r:?}") }
            }
            Ok(true)
        }
        (g, w) => wrong(if w.is_some() { "refusal" } else { "acceptance" }, format!("{a:?}: {g:?}, expected {:?}", w.map(|w| w.0))),
    }
}

// ---- 4. deposits, withdrawals and transfers ----
pub struct Accounts; impl ConvertLocation<u64> for Accounts { fn convert_location(l: &Location) -> Option<u64> { match l { Location { parents: 0, interior: X1(j) } => match j[0] { AccountIndex64 { index, .. } => Some(index), _ => None }, _ => None } } }
pub struct Coins; impl MatchesFungible<u128> for Coins { fn matches_fungible(a: &Asset) -> Option<u128> { fun(a) } }
/// asset 9 at any location, in a book of its own
pub struct Others;
fn book(l: &Location) -> Vec<u8> { use codec::Encode; (b":other", l).encode() }
impl UnknownAsset for Others {
    fn deposit(a: &Asset, l: &Location) -> DispatchResult { match (a.id.0 == at(9), fun(a)) { (true, Some(n)) => { let b: u128 = unhashed::get(&book(l)).unwrap_or(0); unhashed::put(&book(l), &(b + n)); Ok(()) } _ => Err(E::Other("unknown")) } }
    fn withdraw(a: &Asset, l: &Location) -> DispatchResult { match (a.id.0 == at(9), fun(a)) { (true, Some(n)) => { let b: u128 = unhashed::get(&book(l)).unwrap_or(0); if b < n { return Err(E::Other("too few")) } unhashed::put(&book(l), &(b - n)); Ok(()) } _ => Err(E::Other("unknown")) } }
}
/// what cannot be deposited goes to account 8, but for asset 3
pub struct Instead;
impl OnDepositFail<u32, u64, u128> for Instead {
    fn on_deposit_unknown_asset_fail(e: E, _: &Asset, _: &Location) -> Result<(), XcmError> { unhashed::put(b":lost", &1u8); Err(XcmError::FailedToTransactAsset(e.into())) }
    fn on_deposit_currency_fail(e: E, c: u32, who: &u64, n: u128) -> Result<(), XcmError> { unhashed::put(b":instead", &(*who, c, n)); if c == 3 { return Err(XcmError::FailedToTransactAsset(e.into())) } <Tokens as MultiCurrency<u64>>::deposit(c, &8, n).map_err(|e| XcmError::FailedToTransactAsset(e.into())) }
}
pub struct Reroute; impl Contains<(u32, u64)> for Reroute { fn contains(x: &(u32, u64)) -> bool { matches!(*x, (2, 5) | (4, 6)) } }
pub struct Elsewhere; impl Get<u64> for Elsewhere { fn get() -> u64 { 7 } }
type Move = ReroutingMultiCurrencyAdapter<Tokens, Others, Coins, u64, Accounts, u32, Ids, Instead, Reroute, Elsewhere>;
#[derive(Clone, Debug)]
enum Act { In(Asset, Location), Out(Asset, Location), Pass(Asset, Location, Location) }
fn msg<T>(r: Result<T, E>) -> Result<T, XcmError> { r.map_err(|e| XcmError::FailedToTransactAsset(e.into())) }
fn expect_move(a: &Act) -> Result<(), XcmError> {
    type T = Tokens;
    let to = |c: u32, w: u64| if [(2, 5), (4, 6)].contains(&(c, w)) { 7 } else { w };
    let who = |l: &Location| Accounts::convert_location(l).ok_or(XcmError::FailedToTransactAsset("AccountIdConversionFailed"));
    let cur = |x: &Asset| Ids::convert(x.clone()).ok_or(XcmError::FailedToTransactAsset("CurrencyIdConversionFailed"));
    let num = |x: &Asset| fun(x).ok_or(XcmError::FailedToTransactAsset("FailedToMatchFungible"));
    match a {
        Act::In(x, l) => match (who(l), cur(x), num(x)) {
            (Ok(w), Ok(c), Ok(n)) => <T as MultiCurrency<u64>>::deposit(c, &to(c, w), n).or_else(|e| Instead::on_deposit_currency_fail(e, c, &w, n)),
            _ => Others::deposit(x, l).or_else(|e| Instead::on_deposit_unknown_asset_fail(e, x, l)),
        },
        Act::Out(x, l) => { if Others::withdraw(x, l).is_ok() { return Ok(()) } let w = who(l)?; let c = cur(x)?; let n = num(x)?; msg(<T as MultiCurrency<u64>>::withdraw(c, &w, n)) }
        Act::Pass(x, f, t) => { let f = who(f)?; let t = who(t)?; let c = cur(x)?; let t = to(c, t); let n = num(x)?; msg(<T as MultiCurrency<u64>>::transfer(c, &f, &t, n)) }
    }
}
fn moves(a: &Act, _: &mut ()) -> Result<bool, Wrong> {
    let ctx = XcmContext { origin: None, message_id: [0; 32], topic: None };
    let (want, state) = dry(|| { let r = expect_move(a); (r, sp_io::with_ext(|e| e.map.clone())) });
    let (got, asset) = match a {
        Act::In(x, l) => (Move::deposit_asset(x, l, Some(&ctx)), None),
        Act::Out(x, l) => { let r = Move::withdraw_asset(x, l, Some(&ctx)); (r.clone().map(|_| ()), r.ok().map(|h| (h, x))) }
        Act::Pass(x, f, t) => { let r = Move::transfer_asset(x, f, t, &ctx); (r.clone().map(|_| ()), r.ok().map(|h| (h, x))) }
    };
    must!(got == want, "result", "{a:?}: {got:?}, not {want:?}");
    if let Some((h, x)) = asset { must!(h == AssetsInHolding::from(x.clone()), "holding", "{a:?}: {h:?}") }
    let now = sp_io::with_ext(|e| e.map.clone());
    must!(now == state, "storage", "{a:?}: the state is not as expected");
    Ok(true)
}

fn main() {
    let ck = kit::Check::new("P29");
    filter(&ck);
    trader(&ck);
    let mut swaps = vec![];
    for maximal in [true, false] {
        for (i, g, o, w) in [(1, 100, 2, 50), (1, 100, 2, 150), (1, 100, 2, 196), (1, 100, 2, 195), (1, 1, 2, 1), (1, 2, 2, 1), (1, 2, 2, 5), (1, 100, 2, 0), (1, 0, 2, 5), (2, 60, 1, 20), (2, 30, 0, 10), (0, 40, 3, 1), (0, 40, 3, 39), (3, 1, 0, 1), (1, 3000, 2, 100), (1, 100_000, 2, 1999), (1, 100, 1, 100), (1, 100, 4, 3), (4, 9, 1, 1)] {
            swaps.push(Swap::Swap { give: vec![coin(i, g)], want: vec![coin(o, w)], maximal });
        }
        for (give, want) in [(vec![], vec![coin(2, 1)]), (vec![coin(1, 50)], vec![]), (vec![coin(1, 50), coin(3, 5)], vec![coin(2, 5)]), (vec![coin(1, 50)], vec![coin(2, 5), coin(3, 1)]), (vec![item(1)], vec![coin(2, 5)]), (vec![coin(1, 50), item(2)], vec![coin(2, 5)]), (vec![coin(1, 50)], vec![item(2)]), (vec![coin(9, 50)], vec![coin(2, 5)]), (vec![coin(1, 50)], vec![coin(9, 5)])] {
            swaps.push(Swap::Swap { give, want, maximal });
        }
    }
    let donations = [Swap::Donate(1, 3), Swap::Donate(2, 6), Swap::Donate(0, 10)];
    let set = |via: bool| move || {
        System::set_block_number(1);
        for (a, b, x, y) in [(1, 2, 10_000u128, 20_000u128), (0, 1, 5_000, 9_000), (0, 2, 700, 900), (0, 3, 1_000, 40)] { let w = POOL + (a * 10 + b) as u64; <Tokens as MultiCurrency<u64>>::deposit(a, &w, x).unwrap(); <Tokens as MultiCurrency<u64>>::deposit(b, &w, y).unwrap(); }
        for c in 0..5 { <Tokens as MultiCurrency<u64>>::deposit(c, &1, 500).unwrap(); }
        if via { unhashed::put(b":via", &true); pallet_route_executor::Routes::<Rt>::insert(hydradx_traits::router::AssetPair::new(1, 2), sp_runtime::BoundedVec::try_from(vec![Trade { pool: PoolType::Omnipool, asset_in: 1, asset_out: 0 }, Trade { pool: PoolType::Omnipool, asset_in: 0, asset_out: 2 }]).unwrap()); }
    };
    let all: Vec<Swap> = swaps.iter().cloned().chain(donations.iter().cloned()).collect();
    World { name: "exchange", depth: ck.pick(2, 3), events: false, actions: &|_: &()| all.clone(), step: &|a: &Swap, m: &mut ()| exchange(a, m), prepare: &|| {} }.explore(&ck, vec![start("direct", set(false)), start("stored route", set(true))]);
    let mut acts = vec![];
    let places = [account(1), account(5), account(6), account(7), Location::parent()];
    let assets = [coin(0, 4), coin(0, 15), coin(2, 5), coin(2, 3), coin(4, 4), coin(3, u128::MAX), coin(2, u128::MAX), coin(9, 3), coin(8, 3), item(2), item(9), coin(1, 0)];
    for x in &assets { for l in &places { acts.push(Act::In(x.clone(), l.clone())); acts.push(Act::Out(x.clone(), l.clone())); } for (f, t) in [(0, 1), (1, 0), (0, 2), (1, 2), (0, 4), (4, 0), (3, 1), (0, 3), (0, 0), (1, 1)] { acts.push(Act::Pass(x.clone(), places[f].clone(), places[t].clone())) } }
    World { name: "moves", depth: ck.pick(2, 3), events: true, actions: &|_: &()| acts.clone(), step: &|a: &Act, m: &mut ()| moves(a, m), prepare: &|| {} }
        .explore(&ck, vec![start("balances", || { System::set_block_number(1); for (w, c, n) in [(1, 0, 20), (1, 2, 12), (5, 2, 8), (1, 4, 9), (6, 4, 5), (7, 2, 5), (1, 3, 2)] { <Tokens as MultiCurrency<u64>>::deposit(c, &w, n).unwrap(); } }), start("nobody", || System::set_block_number(1))]);
    ck.finish()
}
