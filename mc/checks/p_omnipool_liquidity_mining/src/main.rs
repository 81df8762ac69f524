//! P13: Omnipool liquidity mining, on the real pallets omnipool-liquidity-mining, omnipool and liquidity-mining with stand-in tokens and NFTs.
use codec::{Decode, Encode};
use frame_support::{parameter_types, storage::unhashed, traits::{tokens::nonfungibles::{Create as _, Inspect as _, Mutate as _, Transfer as _}, AsEnsureOriginWithArg, ConstU128, ConstU32, ConstU64, Contains}, weights::Weight, Blake2_128Concat, PalletId, StorageHasher};
use hydra_dx_math::ema::EmaPrice;
use hydradx_traits::{liquidity_mining::{Mutate, PriceAdjustment}, oracle::{AggregatedPriceOracle, OraclePeriod, Source}, pools::DustRemovalAccountWhitelist, registry::{AssetKind, Inspect}};
use orml_traits::{parameter_type_with_key, GetByKey, MultiCurrency};
use pallet_ema_oracle::OracleError;
use pallet_liquidity_mining::{Deposit as LmDeposit, GlobalFarmData, LoyaltyCurve};
use pallet_omnipool::{traits::ExternalPriceProvider, types::{Position, Tradability}};
use sp_arithmetic::{FixedU128, Perquintill};
use sp_core::U256;
use sp_runtime::{traits::{AccountIdConversion, BlockNumberProvider}, DispatchError, Permill};
use std::collections::BTreeMap;
use world::{call, dry, must, start, wrong, AssetId, Balance, Start, World, Wrong};

type Acc = u128;
frame_support::construct_runtime!(
    pub enum Rt { System: frame_system, Balances: pallet_balances, Tokens: orml_tokens, Uniques: pallet_uniques, Omnipool: pallet_omnipool, Lm: pallet_liquidity_mining, Olm: pallet_omnipool_liquidity_mining }
);
world::system!(Rt, pallet_balances::AccountData<u128>, Acc);
world::balances!(Rt, 1);
const HUB: AssetId = 1;
const REWARD: AssetId = 5;
parameter_type_with_key! { pub Eds: |_a: AssetId| -> Balance { 1 }; }
pub struct Keep;
fn wl(a: &Acc) -> Vec<u8> { (b":wl", a).encode() }
impl Contains<Acc> for Keep { fn contains(a: &Acc) -> bool { unhashed::exists(&wl(a)) } }
impl DustRemovalAccountWhitelist<Acc> for Keep {
    type Error = DispatchError;
    fn add_account(a: &Acc) -> Result<(), DispatchError> { unhashed::put(&wl(a), &()); Ok(()) }
    fn remove_account(a: &Acc) -> Result<(), DispatchError> { unhashed::kill(&wl(a)); Ok(()) }
}
world::tokens!(Rt, Eds, Keep, ());
parameter_types! {
    pub const Hub: AssetId = HUB;
    pub const Hdx: AssetId = 2;
    pub const OmniColl: u128 = 77;
    pub const LmColl: u128 = 78;
    pub MinFee: Permill = Permill::from_percent(3);
    pub const LmPid: PalletId = PalletId(*b"LiqMinId");
    pub const OlmPid: PalletId = PalletId(*b"OLiqMinI");
    pub const Treasury: Acc = 8;
    pub const Src: Source = *b"omnipool";
    pub const Per: OraclePeriod = OraclePeriod::TenMinutes;
}
impl pallet_uniques::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type CollectionId = u128;
    type ItemId = u128;
    type Currency = Balances;
    type ForceOrigin = frame_system::EnsureRoot<Acc>;
    type CreateOrigin = AsEnsureOriginWithArg<frame_system::EnsureSigned<Acc>>;
    type Locker = ();
    type CollectionDeposit = ConstU128<0>;
    type ItemDeposit = ConstU128<0>;
    type MetadataDepositBase = ConstU128<0>;
    type AttributeDepositBase = ConstU128<0>;
    type DepositPerByte = ConstU128<0>;
    type StringLimit = ConstU32<50>;
    type KeyLimit = ConstU32<50>;
    type ValueLimit = ConstU32<50>;
    type WeightInfo = ();
}
pub struct Reg;
impl Inspect for Reg {
    type AssetId = AssetId;
    type Location = ();
    fn is_sufficient(_: AssetId) -> bool { true }
    fn exists(a: AssetId) -> bool { a <= 5 }
    fn decimals(_: AssetId) -> Option<u8> { None }
    fn asset_type(_: AssetId) -> Option<AssetKind> { None }
    fn is_banned(_: AssetId) -> bool { false }
    fn asset_name(_: AssetId) -> Option<Vec<u8>> { None }
    fn asset_symbol(_: AssetId) -> Option<Vec<u8>> { None }
    fn existential_deposit(_: AssetId) -> Option<u128> { Some(1) }
}
impl GetByKey<AssetId, Balance> for Reg { fn get(_: &AssetId) -> Balance { 1 } }
pub struct Fees;
impl GetByKey<AssetId, (Permill, Permill)> for Fees { fn get(_: &AssetId) -> (Permill, Permill) { (Permill::from_percent(1), Permill::from_percent(1)) } }
pub struct Ext;
impl ExternalPriceProvider<AssetId, EmaPrice> for Ext {
    type Error = DispatchError;
    fn get_price(_: AssetId, b: AssetId) -> Result<EmaPrice, DispatchError> { let s = Omnipool::load_asset_state(b)?; Ok(EmaPrice::new(s.hub_reserve, s.reserve)) }
    fn get_price_weight() -> Weight { Weight::zero() }
}
impl pallet_omnipool::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type AssetId = AssetId;
    type PositionItemId = u128;
    type CollectionId = u128;
    type Currency = Tokens;
    type AuthorityOrigin = frame_system::EnsureRoot<Acc>;
    type TechnicalOrigin = frame_system::EnsureRoot<Acc>;
    type HubAssetId = Hub;
    type HdxAssetId = Hdx;
    type NFTCollectionId = OmniColl;
    type NFTHandler = Uniques;
    type AssetRegistry = Reg;
    type MinimumTradingLimit = ConstU128<2>;
    type MinimumPoolLiquidity = ConstU128<10>;
    type MaxInRatio = ConstU128<3>;
    type MaxOutRatio = ConstU128<3>;
    type OmnipoolHooks = ();
    type PriceBarrier = ();
    type MinWithdrawalFee = MinFee;
    type ExternalPriceOracle = Ext;
    type Fee = Fees;
    type WeightInfo = ();
}
pub struct Feed;
impl PriceAdjustment<GlobalFarmData<Rt>> for Feed {
    type Error = DispatchError;
    type PriceAdjustment = FixedU128;
    fn get(_: &GlobalFarmData<Rt>) -> Result<FixedU128, DispatchError> { Err("no price".into()) }
}
pub struct Clock;
impl BlockNumberProvider for Clock { type BlockNumber = u64; fn current_block_number() -> u64 { unhashed::get(b":block").unwrap_or(0) } }
impl pallet_liquidity_mining::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type AssetId = AssetId;
    type MultiCurrency = Tokens;
    type PalletId = LmPid;
    type TreasuryAccountId = Treasury;
    type MinTotalFarmRewards = ConstU128<1_000>;
    type MinPlannedYieldingPeriods = ConstU64<5>;
    type BlockNumberProvider = Clock;
    type AmmPoolId = u32;
    type MaxFarmEntriesPerDeposit = ConstU32<3>;
    type MaxYieldFarmsPerGlobalFarm = ConstU32<3>;
    type AssetRegistry = Reg;
    type NonDustableWhitelistHandler = Keep;
    type PriceAdjustment = Feed;
}
/// hub units per unit of the asset; 0: the oracle knows nothing
fn price(a: AssetId) -> (u128, u128) { unhashed::get(&(b":price", a).encode()).unwrap_or((3, 2)) }
pub struct Oracle;
impl AggregatedPriceOracle<AssetId, u64, EmaPrice> for Oracle {
    type Error = OracleError;
    fn get_price(a: AssetId, b: AssetId, p: OraclePeriod, s: Source) -> Result<(EmaPrice, u64), OracleError> {
        // asked for anything but the hub price of an asset of the pool, the answer is of no use
        if a != HUB || b == HUB || p != OraclePeriod::TenMinutes || s != *b"omnipool" { return Ok((EmaPrice::new(1 << 60, 1), 0)) }
        let q = price(b);
        if q.0 == 0 { Err(OracleError::NotPresent) } else { Ok((EmaPrice::new(q.0, q.1), 0)) }
    }
    fn get_price_weight() -> Weight { Weight::zero() }
}
impl pallet_omnipool_liquidity_mining::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type Currency = Tokens;
    type CreateOrigin = frame_system::EnsureRoot<Acc>;
    type PalletId = OlmPid;
    type NFTCollectionId = LmColl;
    type NFTHandler = Uniques;
    type LiquidityMiningHandler = Lm;
    type OracleSource = Src;
    type OraclePeriod = Per;
    type PriceOracle = Oracle;
    type WeightInfo = ();
}
fn signed(w: Acc) -> RuntimeOrigin { RuntimeOrigin::signed(w) }
fn keeper() -> Acc { OlmPid::get().into_account_truncating() }
fn map() -> sp_io::Map { sp_io::with_ext(|e| e.map.clone()) }
fn link_prefix() -> Vec<u8> { [frame_support::Twox128::hash(b"Olm"), frame_support::Twox128::hash(b"OmniPositionId")].concat() }
fn link_key(d: u128) -> Vec<u8> { [link_prefix(), Blake2_128Concat::hash(&d.encode())].concat() }
fn linked(d: u128) -> Option<u128> { unhashed::get(&link_key(d)) }
const OMNI: u128 = 77;
const DEPS: u128 = 78;
fn owner(c: u128, i: u128) -> Option<Acc> { <Uniques as frame_support::traits::tokens::nonfungibles::Inspect<Acc>>::owner(&c, &i) }
fn position(i: u128) -> Option<Position<Balance, AssetId>> { Omnipool::load_position(i, owner(OMNI, i)?).ok() }
#[derive(Decode, Clone, PartialEq, Debug)]
struct En { g: u32, y: u32, valued: u128, rpvs: u128, claimed: u128, entered: u64, at: u64, stopped: u64 }
#[derive(Decode, Clone, PartialEq, Debug)]
struct D { shares: u128, pool: u32, entries: Vec<En> }
fn lm() -> BTreeMap<u128, D> { LmDeposit::<Rt>::iter().map(|(k, v)| (k, D::decode(&mut &v.encode()[..]).expect("record"))).collect() }
fn listed(a: AssetId) -> bool { Omnipool::assets(a).is_some() }
#[derive(Clone, Copy, Debug)]
enum Act {
    Global(bool, Acc, u128, u128), EndGlobal(Acc, u32), Yield(Acc, u32, AssetId, Option<u128>), Update(Acc, u32, AssetId, u128), Stop(Acc, u32, AssetId), Resume(Acc, u32, u32, AssetId, u128), End(Acc, u32, u32, AssetId),
    Deposit(Acc, u32, u32, u128), Again(Acc, u32, u32, u128), Claim(Acc, u128, u32), Withdraw(Acc, u128, u32),
    Add(Acc, AssetId, u128), Remove(Acc, u128, u128), Give(u128, u128, Acc), Delist(AssetId), Blocks(u64), Price(AssetId, u128, u128), Trade(AssetId, AssetId, u128),
}
use Act::*;
fn curve(c: Option<u128>) -> Option<LoyaltyCurve> { c.map(|c| LoyaltyCurve { initial_reward_percentage: FixedU128::from_inner(c), scale_coef: 10 }) }
fn mult(m: u128) -> FixedU128 { FixedU128::from_rational(m, 10) }
fn ypp() -> Perquintill { Perquintill::from_parts(2_000_000_000_000_000) }
fn real(a: &Act) -> Result<(), DispatchError> {
    let pos = |_| ();
    match *a {
        Global(r, w, total, min) => call(|| Olm::create_global_farm(if r { RuntimeOrigin::root() } else { signed(w) }, total, 10, 5, REWARD, w, ypp(), min, FixedU128::from_rational(7, 5))).map(pos),
        EndGlobal(w, g) => call(|| Olm::terminate_global_farm(signed(w), g)).map(pos),
        Yield(w, g, a, c) => call(|| Olm::create_yield_farm(signed(w), g, a, mult(10), curve(c))).map(pos),
        Update(w, g, a, m) => call(|| Olm::update_yield_farm(signed(w), g, a, mult(m))).map(pos),
        Stop(w, g, a) => call(|| Olm::stop_yield_farm(signed(w), g, a)).map(pos),
        Resume(w, g, y, a, m) => call(|| Olm::resume_yield_farm(signed(w), g, y, a, mult(m))).map(pos),
        End(w, g, y, a) => call(|| Olm::terminate_yield_farm(signed(w), g, y, a)).map(pos),
        Deposit(w, g, y, p) => call(|| Olm::deposit_shares(signed(w), g, y, p)).map(pos),
        Again(w, g, y, d) => call(|| Olm::redeposit_shares(signed(w), g, y, d)).map(pos),
        Claim(w, d, y) => call(|| Olm::claim_rewards(signed(w), d, y)).map(pos),
        Withdraw(w, d, y) => {
            // a farm the deposit is not in is reported as an inconsistency, which is only logged in production
            frame_support::defensive_quiet(Some(!lm().get(&d).map_or(false, |d| d.entries.iter().any(|e| e.y == y))));
            let r = call(|| Olm::withdraw_shares(signed(w), d, y)).map(pos);
            frame_support::defensive_quiet(Some(false));
            r
        }
        Add(w, a, x) => call(|| Omnipool::add_liquidity(signed(w), a, x)).map(pos),
        Remove(w, p, x) => call(|| Omnipool::remove_liquidity(signed(w), p, position(p).map_or(5, |p| p.shares) / x)).map(pos),
        Give(c, i, to) => call(|| Uniques::transfer(&c, &i, &to)),
        Delist(a) => call(|| { Omnipool::set_asset_tradable_state(RuntimeOrigin::root(), a, Tradability::FROZEN)?; Omnipool::remove_token(RuntimeOrigin::root(), a, 8) }),
        Blocks(n) => { unhashed::put(b":block", &(Clock::current_block_number() + n)); System::set_block_number(Clock::current_block_number()); Ok(()) }
        Price(a, n, d) => { unhashed::put(&(b":price", a).encode(), &(n, d)); Ok(()) }
        Trade(a, b, x) => call(|| Omnipool::sell(signed(2), a, b, x, 0)).map(pos),
    }
}
fn worth(p: &Position<Balance, AssetId>) -> Result<u128, DispatchError> {
    let (n, d) = price(p.asset_id);
    if n == 0 { return Err("no price".into()) }
    u128::try_from(U256::from(p.amount) * U256::from(n) / U256::from(d)).map_err(|_| "big".into())
}
/// what each call must amount to, in terms of the liquidity mining pallet and the NFTs
fn spec(a: &Act) -> Result<(), DispatchError> {
    let no: DispatchError = "spec".into();
    match *a {
        Global(r, w, total, min) => { if !r { return Err(no) } <Lm as Mutate<_, _, _>>::create_global_farm(total, 10, 5, HUB, REWARD, w, ypp(), min, FixedU128::from_rational(7, 5)).map(|_| ()) }
        EndGlobal(w, g) => <Lm as Mutate<_, _, _>>::terminate_global_farm(w, g).map(|_| ()),
        Yield(w, g, a, c) => { if !listed(a) { return Err(no) } <Lm as Mutate<_, _, _>>::create_yield_farm(w, g, mult(10), curve(c), a, vec![a, HUB]).map(|_| ()) }
        Update(w, g, a, m) => { if !listed(a) { return Err(no) } <Lm as Mutate<_, _, _>>::update_yield_farm_multiplier(w, g, a, mult(m)).map(|_| ()) }
        Stop(w, g, a) => <Lm as Mutate<_, _, _>>::stop_yield_farm(w, g, a).map(|_| ()),
        Resume(w, g, y, a, m) => { if !listed(a) { return Err(no) } <Lm as Mutate<_, _, _>>::resume_yield_farm(w, g, y, a, mult(m)) }
        End(w, g, y, a) => <Lm as Mutate<_, _, _>>::terminate_yield_farm(w, g, y, a),
        Deposit(w, g, y, p) => {
            if owner(OMNI, p) != Some(w) { return Err(no) }
            let q = position(p).ok_or(no)?;
            let d = <Lm as Mutate<_, _, _>>::deposit_lp_shares(g, y, q.asset_id, q.shares, |_, _, _| worth(&q))?;
            Uniques::transfer(&OMNI, &p, &keeper())?;
            Uniques::mint_into(&DEPS, &d, &w)?;
            unhashed::put(&link_key(d), &p);
            Ok(())
        }
        Again(w, g, y, d) => {
            if owner(DEPS, d) != Some(w) { return Err(no) }
            let q = position(linked(d).unwrap()).unwrap();
            <Lm as Mutate<_, _, _>>::redeposit_lp_shares(g, y, d, |_, _, _| worth(&q)).map(|_| ())
        }
        Claim(w, d, y) => { if owner(DEPS, d) != Some(w) { return Err(no) } let (_, _, x, _) = <Lm as Mutate<_, _, _>>::claim_rewards(w, d, y)?; if x == 0 { Err(no) } else { Ok(()) } }
        Withdraw(w, d, y) => {
            if owner(DEPS, d) != Some(w) { return Err(no) }
            let p = linked(d).unwrap();
            let e = lm()[&d].entries.iter().find(|e| e.y == y).map(|e| e.g).ok_or(no)?;
            let (_, _, gone) = <Lm as Mutate<_, _, _>>::withdraw_lp_shares(w, d, e, y, position(p).unwrap().asset_id)?;
            let left = lm().contains_key(&d);
            assert!(gone != left);
            if gone { Uniques::transfer(&OMNI, &p, &w)?; Uniques::burn(&DEPS, &d, None)?; unhashed::kill(&link_key(d)); }
            Ok(())
        }
        _ => unreachable!(),
    }
}
fn checked(a: &Act) -> bool { !matches!(a, Add(..) | Remove(..) | Give(..) | Delist(..) | Blocks(..) | Price(..) | Trade(..)) }
fn step(a: &Act) -> Result<bool, Wrong> {
    if let Give(c, i, to) = *a { match owner(c, i) { Some(w) if w != keeper() && w != to => (), _ => return Ok(false) } }
    let before = map();
    let kept: Vec<_> = (0..8).filter_map(|p| if owner(OMNI, p) == Some(keeper()) { Some((p, position(p))) } else { None }).collect();
    if let Remove(w, p, _) = *a { if owner(OMNI, p) != Some(w) { let r = real(a); must!(r.is_err() && map() == before, "foreign", "the position of another: {r:?}"); return Ok(false) } }
    let want = checked(a).then(|| dry(|| { let r = call(|| spec(a)); r.map(|_| map()) }));
    let got = real(a);
    let after = map();
    match &want {
        Some(Ok(m)) => {
            must!(got.is_ok(), "accept", "refused: {got:?}; {}", say());
            if *m != after { let d: Vec<_> = m.iter().filter(|(k, v)| after.get(*k) != Some(*v)).map(|(k, _)| name(k)).chain(after.keys().filter(|k| !m.contains_key(*k)).map(|k| name(k))).collect(); return wrong("effect", format!("unexpected values of {d:?}; {}", say())) }
        }
        Some(Err(e)) => { must!(got.is_err(), "accept", "accepted, but {e:?}; {}", say()); }
        None => (),
    }
    if got.is_err() { must!(after == before, "refused", "a refused call changed the state"); }
    for (p, q) in kept { must!(owner(OMNI, p) != Some(keeper()) || position(p) == q, "kept", "position {p} in custody changed from {q:?} to {:?}", position(p)); }
    ok()?;
    Ok(got.is_ok())
}
fn name(k: &[u8]) -> String {
    for p in ["System", "Balances", "Tokens", "Uniques", "Omnipool", "Lm", "Olm"] { if k.starts_with(&frame_support::Twox128::hash(p.as_bytes())) { return p.into() } }
    format!("{k:?}")
}
fn deposits() -> BTreeMap<u128, Acc> { (0..10).filter_map(|d| owner(DEPS, d).map(|w| (d, w))).collect() }
fn say() -> String { format!("block {}, deposits {:?}, positions {:?}, {:?}", Clock::current_block_number(), deposits(), (0..8).map(|p| (p, owner(OMNI, p))).filter(|p| p.1.is_some()).collect::<Vec<_>>(), lm()) }
fn ok() -> Result<(), Wrong> {
    let deps = deposits();
    let lm = lm();
    must!(deps.keys().eq(lm.keys()), "receipts", "{}", say());
    must!(sp_io::storage::keys_with_prefix(&link_prefix()).len() == deps.len(), "links", "{}", say());
    let mut held = vec![];
    for d in deps.keys() {
        let Some(p) = linked(*d) else { return wrong("links", format!("deposit {d} has no position: {}", say())) };
        held.push(p);
        let q = position(p);
        must!(owner(OMNI, p) == Some(keeper()) && q.as_ref().map_or(false, |q| q.shares == lm[d].shares && q.asset_id == lm[d].pool), "custody", "deposit {d}, position {p} {q:?}: {}", say());
        must!(!lm[d].entries.is_empty(), "entries", "{}", say());
    }
    held.sort();
    let mine: Vec<u128> = (0..8).filter(|p| owner(OMNI, *p) == Some(keeper())).collect();
    must!(held == mine, "custody", "positions {mine:?} are in custody, deposits refer to {held:?}");
    // every holder of a receipt can get the position back, and only after leaving every farm
    let r = dry(|| {
        for (d, w) in &deps {
            let p = linked(*d).unwrap();
            let farms: Vec<u32> = lm[d].entries.iter().map(|e| e.y).collect();
            for (i, y) in farms.iter().enumerate() {
                if owner(OMNI, p) != Some(keeper()) { return Err(format!("position {p} left after {i} of {} farms", farms.len())) }
                real(&Withdraw(*w, *d, *y)).map_err(|e| format!("{w} cannot withdraw {d} from {y}: {e:?}"))?;
            }
            if owner(OMNI, p) != Some(*w) || owner(DEPS, *d).is_some() || linked(*d).is_some() { return Err(format!("deposit {d} of {w} was withdrawn, position {p} is owned by {:?}", owner(OMNI, p))) }
        }
        Ok(())
    });
    if let Err(e) = r { return wrong("leave", format!("{e}: {}", say())) }
    Ok(())
}
fn begin(name: &str, acts: &[Act]) -> Start<()> {
    start(name, || {
        System::set_block_number(1);
        unhashed::put(b":block", &10u64);
        for w in [1, 2, 3, 8] { for a in [2, 3, 4] { <Tokens as MultiCurrency<Acc>>::deposit(a, &w, 100_000).unwrap(); } }
        <Tokens as MultiCurrency<Acc>>::deposit(REWARD, &3, 100_000_000).unwrap();
        for a in [2, 3, 4] {
            <Tokens as MultiCurrency<Acc>>::deposit(a, &Omnipool::protocol_account(), 20_000).unwrap();
            call(|| Omnipool::add_token(RuntimeOrigin::root(), a, FixedU128::from_rational(3, 2), Permill::from_percent(100), 8)).unwrap();
        }
        Uniques::create_collection(&DEPS, &keeper(), &keeper()).unwrap();
        for a in acts { match step(a) { Ok(true) => (), x => panic!("start {name}: {a:?} gives {x:?}") } }
    })
}
fn main() {
    let ck = kit::Check::new("P13");
    // positions 1, 2, 3 belong to account 8, which listed the assets; 4, 5 and 6 to the users
    let base = [Add(1, 3, 5_000), Add(2, 3, 1_700), Add(1, 4, 2_900), Global(true, 3, 1_000_000, 1_000), Global(true, 3, 2_000_000, 1_200), Yield(3, 1, 3, None), Yield(3, 2, 3, Some(500_000_000_000_000_000)), Yield(3, 1, 4, None)];
    let first = dbg_first(&base);
    let acts = |_: &()| {
        let mut v = vec![Blocks(5), Blocks(100), Price(3, 1, 1), Price(3, 0, 1), Price(3, 1 << 100, 1), Trade(3, 4, 500), Delist(4), Add(2, 4, 50)];
        v.extend([Give(OMNI, first, 2), Give(DEPS, 1, 2), Give(DEPS, 2, 1), Remove(1, first, 1), Remove(1, first, 2), Remove(2, first, 1), Remove(2, first + 1, 1), Remove(1, first + 2, 1)]);
        for (w, p) in [(1, first), (2, first), (2, first + 1), (1, first + 2)] { for (g, y) in [(1, 3), (2, 4), (1, 5)] { v.push(Deposit(w, g, y, p)); } }
        for d in 1..3 { for w in 1..3 { for y in [3, 4, 5] { v.extend([Claim(w, d, y), Withdraw(w, d, y)]); } for (g, y) in [(1, 3), (2, 4)] { v.push(Again(w, g, y, d)); } } }
        v.extend([Again(1, 1, 5, 1), Deposit(1, 2, 3, first), Claim(3, 1, 3)]);
        v.extend([Stop(3, 1, 3), Stop(1, 1, 3), Stop(3, 1, 4), Resume(3, 1, 3, 3, 15), Resume(3, 1, 5, 4, 15), End(3, 1, 3, 3), End(3, 1, 5, 4), EndGlobal(3, 1), EndGlobal(1, 2), EndGlobal(3, 2), Update(3, 1, 3, 25), Update(3, 1, 4, 25), Update(2, 2, 3, 25)]);
        v.extend([Global(true, 3, 50_000, 1_000), Global(true, 3, 50_000, 999), Global(false, 3, 50_000, 1_000), Yield(3, 2, 4, None), Yield(3, 1, 5, None), Yield(2, 2, 4, None)]);
        v
    };
    let with = |more: &[Act]| -> Vec<Act> { let mut v = base.to_vec(); v.extend(more); v };
    let starts = vec![
        begin("farms", &base),
        begin("one in two farms", &with(&[Deposit(1, 1, 3, first), Blocks(15), Again(1, 2, 4, 1), Blocks(10)])),
        begin("two deposits", &with(&[Deposit(2, 1, 3, first + 1), Deposit(1, 2, 4, first), Blocks(30), Give(DEPS, 2, 2), Blocks(5)])),
        begin("stopped", &with(&[Deposit(1, 1, 5, first + 2), Deposit(2, 1, 3, first + 1), Blocks(20), Again(2, 2, 4, 2), Blocks(20), Stop(3, 1, 4), Claim(2, 2, 3), Blocks(9)])),
        begin("over", &with(&[Deposit(1, 1, 3, first), Blocks(200), Again(1, 2, 4, 1), Stop(3, 1, 3), Stop(3, 1, 4), End(3, 1, 3, 3), End(3, 1, 5, 4), Blocks(30), Price(3, 0, 1)])),
    ];
    World { name: "Omnipool farms", depth: ck.pick(4, 5), events: false, actions: &acts, step: &|a: &Act, _: &mut ()| step(a), prepare: &|| {} }.explore(&ck, starts);
    ck.finish()
}
/// the number of the first user's position
fn dbg_first(acts: &[Act]) -> u128 {
    let s = begin("look", &acts[..1]);
    sp_io::swap_ext(sp_io::Ext::from_map(s.map));
    let p = (0..9).find(|p| owner(OMNI, *p) == Some(1)).expect("a position");
    sp_io::swap_ext(sp_io::Ext::default());
    p
}
