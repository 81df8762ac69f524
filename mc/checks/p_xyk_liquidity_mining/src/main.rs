//! P14: XYK liquidity mining, on the real pallets xyk-liquidity-mining, xyk, asset-registry and liquidity-mining with stand-in tokens and NFTs.
use codec::{Decode, Encode};
use frame_support::{parameter_types, storage::unhashed, traits::{tokens::nonfungibles::{Create as _, Mutate as _, Transfer as _}, AsEnsureOriginWithArg, ConstU128, ConstU32, ConstU64, Contains}, PalletId};
use hydradx_traits::{liquidity_mining::{Mutate, PriceAdjustment}, pools::DustRemovalAccountWhitelist, registry::{AssetKind, Inspect}, AssetPairAccountIdFor, CanCreatePool, AMM};
use orml_traits::{parameter_type_with_key, GetByKey, MultiCurrency};
use pallet_liquidity_mining::{Deposit as LmDeposit, GlobalFarmData, LoyaltyCurve};
use pallet_xyk::types::AssetPair;
use sp_arithmetic::{FixedU128, Perquintill};
use sp_core::U256;
use sp_runtime::{traits::{AccountIdConversion, BlockNumberProvider}, DispatchError};
use std::collections::BTreeMap;
use world::{call, dry, must, start, wrong, AssetId, Balance, Start, World, Wrong};

type Acc = u128;
frame_support::construct_runtime!(
    pub enum Rt { System: frame_system, Balances: pallet_balances, Tokens: orml_tokens, Uniques: pallet_uniques, AssetRegistry: pallet_asset_registry, XYK: pallet_xyk, Lm: pallet_liquidity_mining, Xlm: pallet_xyk_liquidity_mining }
);
world::system!(Rt, pallet_balances::AccountData<u128>, Acc);
world::balances!(Rt, 1);
/// asset 6 is a reward currency that does not keep accounts alive, with an existential deposit of 10
const REWARD: AssetId = 5;
const POOR: AssetId = 6;
const ED: u128 = 10;
parameter_type_with_key! { pub Eds: |a: AssetId| -> Balance { if *a == POOR { ED } else { 1 } }; }
pub struct Keep;
fn wl(a: &Acc) -> Vec<u8> { (b":wl", a).encode() }
impl Contains<Acc> for Keep { fn contains(a: &Acc) -> bool { unhashed::exists(&wl(a)) } }
impl DustRemovalAccountWhitelist<Acc> for Keep {
    type Error = DispatchError;
    fn add_account(a: &Acc) -> Result<(), DispatchError> { unhashed::put(&wl(a), &()); Ok(()) }
    fn remove_account(a: &Acc) -> Result<(), DispatchError> { unhashed::kill(&wl(a)); Ok(()) }
}
world::tokens!(Rt, Eds, Keep, ());
parameter_types! {
    pub const LmColl: u128 = 78;
    pub const LmPid: PalletId = PalletId(*b"LiqMinId");
    pub const XlmPid: PalletId = PalletId(*b"XYK///LM");
    pub const Treasury: Acc = 8;
    pub const Fee: (u32, u32) = (3, 1_000);
    pub const Src: hydradx_traits::Source = *b"hydraxyk";
    #[derive(PartialEq, Debug)]
    pub RegLimit: u32 = 40;
    #[derive(PartialEq, Debug)]
    pub RegMin: u32 = 2;
}
impl pallet_asset_registry::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type RegistryOrigin = frame_system::EnsureRoot<Acc>;
    type Currency = Tokens;
    type UpdateOrigin = frame_system::EnsureRoot<Acc>;
    type AssetId = AssetId;
    type AssetNativeLocation = u8;
    type StringLimit = RegLimit;
    type MinStringLimit = RegMin;
    type SequentialIdStartAt = ConstU32<1000>;
    type RegExternalWeightMultiplier = ConstU64<1>;
    type WeightInfo = ();
}
pub struct PairAcc;
impl AssetPairAccountIdFor<AssetId, Acc> for PairAcc { fn from_assets(a: AssetId, b: AssetId, _: &str) -> Acc { pool_of((a, b)) } }
fn pool_of((a, b): (AssetId, AssetId)) -> Acc { 100 + (a.min(b) * 10 + a.max(b)) as Acc }
pub struct Any;
impl CanCreatePool<AssetId> for Any { fn can_create(_: AssetId, _: AssetId) -> bool { true } }
impl pallet_xyk::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type AssetRegistry = AssetRegistry;
    type AssetPairAccountId = PairAcc;
    type Currency = Tokens;
    type NativeAssetId = ConstU32<0>;
    type WeightInfo = ();
    type GetExchangeFee = Fee;
    type MinTradingLimit = ConstU128<2>;
    type MinPoolLiquidity = ConstU128<10>;
    type MaxInRatio = ConstU128<3>;
    type MaxOutRatio = ConstU128<3>;
    type CanCreatePool = Any;
    type AMMHandler = ();
    type DiscountedFee = Fee;
    type NonDustableWhitelistHandler = Keep;
    type OracleSource = Src;
}
pub struct Reg;
impl Inspect for Reg {
    type AssetId = AssetId;
    type Location = ();
    fn is_sufficient(a: AssetId) -> bool { a != POOR }
    fn exists(_: AssetId) -> bool { true }
    fn decimals(_: AssetId) -> Option<u8> { None }
    fn asset_type(_: AssetId) -> Option<AssetKind> { None }
    fn is_banned(_: AssetId) -> bool { false }
    fn asset_name(_: AssetId) -> Option<Vec<u8>> { None }
    fn asset_symbol(_: AssetId) -> Option<Vec<u8>> { None }
    fn existential_deposit(a: AssetId) -> Option<u128> { Some(if a == POOR { ED } else { 1 }) }
}
impl GetByKey<AssetId, Balance> for Reg { fn get(a: &AssetId) -> Balance { if *a == POOR { ED } else { 1 } } }
impl pallet_uniques::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type CollectionId = u128;
    type ItemId = u128;
    type Currency = Balances;
    type ForceOrigin = frame_system::EnsureRoot<Acc>;
    type CreateOrigin = AsEnsureOriginWithArg<frame_system::EnsureSigned<Acc>>;
    type Locker = ();
    type CollectionDeposit = ConstU128<0>;
    type ItemDeposit = ConstU128<0>;
    type MetadataDepositBase = ConstU128<0>;
    type AttributeDepositBase = ConstU128<0>;
    type DepositPerByte = ConstU128<0>;
    type StringLimit = ConstU32<50>;
    type KeyLimit = ConstU32<50>;
    type ValueLimit = ConstU32<50>;
    type WeightInfo = ();
}
pub struct Feed;
impl PriceAdjustment<GlobalFarmData<Rt>> for Feed {
    type Error = DispatchError;
    type PriceAdjustment = FixedU128;
    fn get(_: &GlobalFarmData<Rt>) -> Result<FixedU128, DispatchError> { Err("no price".into()) }
}
pub struct Clock;
impl BlockNumberProvider for Clock { type BlockNumber = u64; fn current_block_number() -> u64 { unhashed::get(b":block").unwrap_or(0) } }
impl pallet_liquidity_mining::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type AssetId = AssetId;
    type MultiCurrency = Tokens;
    type PalletId = LmPid;
    type TreasuryAccountId = Treasury;
    type MinTotalFarmRewards = ConstU128<1_000>;
    type MinPlannedYieldingPeriods = ConstU64<5>;
    type BlockNumberProvider = Clock;
    type AmmPoolId = Acc;
    type MaxFarmEntriesPerDeposit = ConstU32<3>;
    type MaxYieldFarmsPerGlobalFarm = ConstU32<3>;
    type AssetRegistry = Reg;
    type NonDustableWhitelistHandler = Keep;
    type PriceAdjustment = Feed;
}
impl pallet_xyk_liquidity_mining::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type Currencies = Tokens;
    type AMM = XYK;
    type CreateOrigin = frame_system::EnsureRoot<Acc>;
    type PalletId = XlmPid;
    type NFTCollectionId = LmColl;
    type NFTHandler = Uniques;
    type LiquidityMiningHandler = Lm;
    type NonDustableWhitelistHandler = Keep;
    type AssetRegistry = Reg;
    type WeightInfo = ();
}
fn signed(w: Acc) -> RuntimeOrigin { RuntimeOrigin::signed(w) }
fn keeper() -> Acc { XlmPid::get().into_account_truncating() }
fn map() -> sp_io::Map { sp_io::with_ext(|e| e.map.clone()) }
const DEPS: u128 = 78;
fn owner(i: u128) -> Option<Acc> { <Uniques as frame_support::traits::tokens::nonfungibles::Inspect<Acc>>::owner(&DEPS, &i) }
#[derive(Decode, Clone, PartialEq, Debug)]
struct En { g: u32, y: u32, valued: u128, rpvs: u128, claimed: u128, entered: u64, at: u64, stopped: u64 }
#[derive(Decode, Clone, PartialEq, Debug)]
struct D { shares: u128, pool: Acc, entries: Vec<En> }
fn lm() -> BTreeMap<u128, D> { LmDeposit::<Rt>::iter().map(|(k, v)| (k, D::decode(&mut &v.encode()[..]).expect("record"))).collect() }
fn bal(a: AssetId, w: Acc) -> u128 { Tokens::free_balance(a, &w) }
/// pools by their first letter: N 1/2, M 2/3, X does not exist
#[derive(Clone, Copy, Debug, PartialEq)]
enum P { N, M, X, NRev }
use P::*;
fn pair(p: P) -> (AssetId, AssetId) { match p { N => (1, 2), NRev => (2, 1), M => (3, 2), X => (1, 3) } }
fn ap(p: P) -> AssetPair { let (a, b) = pair(p); AssetPair::new(a, b) }
fn exists(p: P) -> bool { <XYK as AMM<Acc, AssetId, AssetPair, Balance>>::exists(ap(p)) }
fn share(p: P) -> AssetId { XYK::share_token(pool_of(pair(p))) }
#[derive(Clone, Copy, Debug)]
enum Act {
    Global(bool, Acc, u128, u128, AssetId, AssetId), Adjust(Acc, u32, u128), EndGlobal(Acc, u32), Yield(Acc, u32, P, Option<u128>), Update(Acc, u32, P, u128), Stop(Acc, u32, P), Resume(Acc, u32, u32, P, u128), End(Acc, u32, u32, P),
    Deposit(Acc, u32, u32, P, u128), Again(Acc, u32, u32, P, u128), Claim(Acc, u128, u32), Withdraw(Acc, u128, u32, P),
    Add(Acc, P, u128), Remove(Acc, P, u128), Give(u128, Acc), Blocks(u64), Trade(P, u128),
}
use Act::*;
fn curve(c: Option<u128>) -> Option<LoyaltyCurve> { c.map(|c| LoyaltyCurve { initial_reward_percentage: FixedU128::from_inner(c), scale_coef: 10 }) }
fn mult(m: u128) -> FixedU128 { FixedU128::from_rational(m, 10) }
fn ypp() -> Perquintill { Perquintill::from_parts(2_000_000_000_000_000) }
fn real(a: &Act) -> Result<(), DispatchError> {
    let pos = |_| ();
    match *a {
        Global(r, w, total, min, inc, rew) => call(|| Xlm::create_global_farm(if r { RuntimeOrigin::root() } else { signed(w) }, total, 10, 5, inc, rew, w, ypp(), min, mult(14))).map(pos),
        Adjust(w, g, m) => call(|| Xlm::update_global_farm(signed(w), g, mult(m))).map(pos),
        EndGlobal(w, g) => call(|| Xlm::terminate_global_farm(signed(w), g)).map(pos),
        Yield(w, g, p, c) => call(|| Xlm::create_yield_farm(signed(w), g, ap(p), mult(10), curve(c))).map(pos),
        Update(w, g, p, m) => call(|| Xlm::update_yield_farm(signed(w), g, ap(p), mult(m))).map(pos),
        Stop(w, g, p) => call(|| Xlm::stop_yield_farm(signed(w), g, ap(p))).map(pos),
        Resume(w, g, y, p, m) => call(|| Xlm::resume_yield_farm(signed(w), g, y, ap(p), mult(m))).map(pos),
        End(w, g, y, p) => call(|| Xlm::terminate_yield_farm(signed(w), g, y, ap(p))).map(pos),
        Deposit(w, g, y, p, x) => call(|| Xlm::deposit_shares(signed(w), g, y, ap(p), x)).map(pos),
        Again(w, g, y, p, d) => call(|| Xlm::redeposit_shares(signed(w), g, y, ap(p), d)).map(pos),
        Claim(w, d, y) => call(|| Xlm::claim_rewards(signed(w), d, y)).map(pos),
        Withdraw(w, d, y, p) => call(|| Xlm::withdraw_shares(signed(w), d, y, ap(p))).map(pos),
        Add(w, p, x) => { let (a, b) = pair(p); call(|| if exists(p) { XYK::add_liquidity(signed(w), a, b, x, 1 << 90) } else { XYK::create_pool(signed(w), a, x, b, x / 2) }).map(pos) }
        Remove(w, p, x) => { let (a, b) = pair(p); let mine = bal(share(p), w); call(|| XYK::remove_liquidity(signed(w), a, b, mine.min(x))).map(pos) }
        Give(i, to) => call(|| Uniques::transfer(&DEPS, &i, &to)),
        Blocks(n) => { unhashed::put(b":block", &(Clock::current_block_number() + n)); System::set_block_number(Clock::current_block_number()); Ok(()) }
        Trade(p, x) => { let (a, b) = pair(p); call(|| XYK::sell(signed(4), a, b, x, 0, false)).map(pos) }
    }
}
/// what the shares stand for in the incentivized asset, rounded down
fn worth(inc: AssetId, pool: Acc, x: u128) -> Result<u128, DispatchError> {
    let (a, b) = XYK::pool_assets(pool).ok_or("no pool")?;
    if inc != a && inc != b { return Err("not of the pool".into()) }
    let total = XYK::total_liquidity(pool);
    if total == 0 { return Err("empty".into()) }
    Ok((U256::from(bal(inc, pool)) * U256::from(x) / U256::from(total)).as_u128())
}
/// what each call must amount to, in terms of the liquidity mining pallet, the tokens and the NFTs
fn spec(a: &Act) -> Result<(), DispatchError> {
    let no: DispatchError = "spec".into();
    match *a {
        Global(r, w, total, min, inc, rew) => {
            if !r { return Err(no) }
            if rew == POOR { <Tokens as MultiCurrency<Acc>>::transfer(rew, &w, &Lm::pot_account_id().unwrap(), ED)?; }
            <Lm as Mutate<_, _, _>>::create_global_farm(total, 10, 5, inc, rew, w, ypp(), min, mult(14)).map(|_| ())
        }
        Adjust(w, g, m) => <Lm as Mutate<_, _, _>>::update_global_farm_price_adjustment(w, g, mult(m)),
        EndGlobal(w, g) => <Lm as Mutate<_, _, _>>::terminate_global_farm(w, g).map(|_| ()),
        Yield(w, g, p, c) => { if !exists(p) { return Err(no) } let (a, b) = pair(p); <Lm as Mutate<_, _, _>>::create_yield_farm(w, g, mult(10), curve(c), pool_of((a, b)), vec![a, b]).map(|_| ()) }
        Update(w, g, p, m) => { if !exists(p) { return Err(no) } <Lm as Mutate<_, _, _>>::update_yield_farm_multiplier(w, g, pool_of(pair(p)), mult(m)).map(|_| ()) }
        Stop(w, g, p) => <Lm as Mutate<_, _, _>>::stop_yield_farm(w, g, pool_of(pair(p))).map(|_| ()),
        Resume(w, g, y, p, m) => { if !exists(p) { return Err(no) } <Lm as Mutate<_, _, _>>::resume_yield_farm(w, g, y, pool_of(pair(p)), mult(m)) }
        End(w, g, y, p) => <Lm as Mutate<_, _, _>>::terminate_yield_farm(w, g, y, pool_of(pair(p))),
        Deposit(w, g, y, p, x) => {
            if !exists(p) || bal(share(p), w) < x { return Err(no) }
            let d = <Lm as Mutate<_, _, _>>::deposit_lp_shares(g, y, pool_of(pair(p)), x, worth)?;
            <Tokens as MultiCurrency<Acc>>::transfer(share(p), &w, &keeper(), x)?;
            Uniques::mint_into(&DEPS, &d, &w)
        }
        Again(w, g, y, p, d) => {
            if owner(d) != Some(w) || !exists(p) || lm()[&d].pool != pool_of(pair(p)) { return Err(no) }
            <Lm as Mutate<_, _, _>>::redeposit_lp_shares(g, y, d, worth).map(|_| ())
        }
        Claim(w, d, y) => { if owner(d) != Some(w) { return Err(no) } let (_, _, x, _) = <Lm as Mutate<_, _, _>>::claim_rewards(w, d, y)?; if x == 0 { Err(no) } else { Ok(()) } }
        Withdraw(w, d, y, p) => {
            if owner(d) != Some(w) || !exists(p) { return Err(no) }
            let was = lm()[&d].clone();
            let g = was.entries.iter().find(|e| e.y == y).map(|e| e.g).ok_or(no)?;
            if was.pool != pool_of(pair(p)) { return Err(no) }
            <Lm as Mutate<_, _, _>>::withdraw_lp_shares(w, d, g, y, was.pool)?;
            if was.entries.len() == 1 { <Tokens as MultiCurrency<Acc>>::transfer(share(p), &keeper(), &w, was.shares)?; Uniques::burn(&DEPS, &d, None)?; }
            Ok(())
        }
        _ => unreachable!(),
    }
}
fn checked(a: &Act) -> bool { !matches!(a, Add(..) | Remove(..) | Give(..) | Blocks(..) | Trade(..)) }
fn step(a: &Act) -> Result<bool, Wrong> {
    if let Give(i, to) = *a { match owner(i) { Some(w) if w != to => (), _ => return Ok(false) } }
    let before = map();
    let want = checked(a).then(|| dry(|| { let r = call(|| spec(a)); r.map(|_| map()) }));
    let got = real(a);
    let after = map();
    match &want {
        Some(Ok(m)) => {
            must!(got.is_ok(), "accept", "refused: {got:?}; {}", say());
            if *m != after { let d: Vec<_> = m.iter().filter(|(k, v)| after.get(*k) != Some(*v)).map(|(k, _)| name(k)).chain(after.keys().filter(|k| !m.contains_key(*k)).map(|k| name(k))).collect(); return wrong("effect", format!("unexpected values of {d:?}; {}", say())) }
        }
        Some(Err(e)) => { must!(got.is_err(), "accept", "accepted, but {e:?}; {}", say()); }
        None => (),
    }
    if got.is_err() { must!(after == before, "refused", "a refused call changed the state"); }
    ok()?;
    Ok(got.is_ok())
}
fn name(k: &[u8]) -> String {
    use frame_support::StorageHasher;
    for p in ["System", "Balances", "Tokens", "Uniques", "AssetRegistry", "XYK", "Lm", "Xlm"] { if k.starts_with(&frame_support::Twox128::hash(p.as_bytes())) { return p.into() } }
    format!("{k:?}")
}
fn deposits() -> BTreeMap<u128, Acc> { (0..10).filter_map(|d| owner(d).map(|w| (d, w))).collect() }
fn say() -> String { format!("block {}, deposits {:?}, {:?}", Clock::current_block_number(), deposits(), lm()) }
fn pick(pool: Acc) -> P { if pool == pool_of(pair(N)) { N } else { M } }
fn ok() -> Result<(), Wrong> {
    let (deps, lm) = (deposits(), lm());
    must!(deps.keys().eq(lm.keys()), "receipts", "{}", say());
    for p in [N, M] {
        let sum: u128 = lm.values().filter(|d| d.pool == pool_of(pair(p))).map(|d| d.shares).sum();
        let held = if exists(p) { bal(share(p), keeper()) } else { 0 };
        must!(held == sum, "custody", "{held} shares of {p:?} are in custody, {sum} are deposited: {}", say());
    }
    must!(lm.values().all(|d| !d.entries.is_empty()), "entries", "{}", say());
    // every holder of a receipt can get the shares back, and only after leaving every farm
    let r = dry(|| {
        for (d, w) in &deps {
            let p = pick(lm[d].pool);
            let mine = bal(share(p), *w);
            for (i, e) in lm[d].entries.iter().enumerate() {
                if bal(share(p), *w) != mine { return Err(format!("shares left after {i} of {} farms", lm[d].entries.len())) }
                real(&Withdraw(*w, *d, e.y, p)).map_err(|x| format!("{w} cannot withdraw {d} from {}: {x:?}", e.y))?;
            }
            if bal(share(p), *w) != mine + lm[d].shares || owner(*d).is_some() { return Err(format!("deposit {d} of {w} was withdrawn, the shares were not")) }
        }
        Ok(())
    });
    if let Err(e) = r { return wrong("leave", format!("{e}: {}", say())) }
    Ok(())
}
fn begin(name: &str, acts: &[Act]) -> Start<()> {
    start(name, || {
        System::set_block_number(1);
        unhashed::put(b":block", &10u64);
        Keep::add_account(&keeper()).unwrap();
        for w in [1, 2, 3, 4] { for a in [1, 2, 3] { <Tokens as MultiCurrency<Acc>>::deposit(a, &w, 100_000).unwrap(); } }
        for (a, x) in [(REWARD, 100_000_000), (POOR, 61_000)] { <Tokens as MultiCurrency<Acc>>::deposit(a, &3, x).unwrap(); }
        Uniques::create_collection(&DEPS, &keeper(), &keeper()).unwrap();
        for a in acts { match step(a) { Ok(true) => (), x => panic!("start {name}: {a:?} gives {x:?}") } }
    })
}
fn main() {
    let ck = kit::Check::new("P14");
    let base = [Add(1, N, 20_000), Add(1, M, 9_000), Add(2, N, 5_000), Global(true, 3, 1_000_000, 1_000, 2, REWARD), Global(true, 3, 2_000_000, 1_200, 1, REWARD), Yield(3, 1, N, None), Yield(3, 2, NRev, Some(500_000_000_000_000_000)), Yield(3, 1, M, None)];
    let acts = |_: &()| {
        let mut v = vec![Blocks(5), Blocks(100), Trade(N, 900), Trade(M, 800), Add(2, M, 2_000), Remove(1, N, 1 << 100), Remove(2, N, 1 << 100), Remove(1, M, 1 << 100), Give(1, 2), Give(2, 1)];
        for (w, x) in [(1, 3_000), (1, 999), (2, 5_000), (2, 5_001)] { for (g, y, p) in [(1, 3, N), (2, 4, NRev), (1, 5, M), (1, 3, M), (1, 5, X)] { v.push(Deposit(w, g, y, p, x)); } }
        for d in 1..3 { for w in 1..3 { for (y, p) in [(3, N), (4, NRev), (5, M)] { v.extend([Claim(w, d, y), Withdraw(w, d, y, p)]); } for (g, y, p) in [(1, 3, NRev), (2, 4, N)] { v.push(Again(w, g, y, p, d)); } } }
        v.extend([Again(1, 1, 5, M, 1), Again(1, 2, 4, M, 1), Withdraw(1, 1, 3, M), Withdraw(1, 1, 5, N), Withdraw(1, 1, 3, X), Claim(3, 1, 3)]);
        v.extend([Stop(3, 1, N), Stop(1, 1, N), Stop(3, 1, M), Stop(3, 1, X), Resume(3, 1, 3, N, 15), Resume(3, 1, 5, M, 15), End(3, 1, 3, N), End(3, 1, 5, M), EndGlobal(3, 1), EndGlobal(1, 2), EndGlobal(3, 2), Update(3, 1, N, 25), Update(3, 1, M, 25), Update(2, 2, N, 25), Adjust(3, 1, 20), Adjust(1, 1, 20), Adjust(3, 2, 0)]);
        v.extend([Global(true, 3, 50_000, 1_000, 2, POOR), Yield(3, 6, M, None), Global(true, 3, 50_000, 999, 1, REWARD), Global(false, 3, 50_000, 1_000, 1, REWARD), Yield(3, 2, M, None), Yield(3, 1, X, None), Yield(2, 2, M, None)]);
        v
    };
    let with = |more: &[Act]| -> Vec<Act> { let mut v = base.to_vec(); v.extend(more); v };
    let starts = vec![
        begin("farms", &base),
        begin("one in two farms", &with(&[Deposit(1, 1, 3, N, 3_000), Blocks(15), Again(1, 2, 4, N, 1), Blocks(10)])),
        begin("two deposits", &with(&[Deposit(2, 1, 3, NRev, 2_777), Deposit(1, 2, 4, NRev, 20_000), Blocks(30), Give(2, 2), Blocks(5)])),
        begin("stopped", &with(&[Deposit(1, 1, 5, M, 4_500), Deposit(2, 1, 3, N, 2_345), Blocks(20), Trade(N, 5_000), Again(2, 2, 4, N, 2), Blocks(20), Stop(3, 1, M), Claim(2, 2, 3), Blocks(9)])),
        begin("over", &with(&[Deposit(1, 1, 3, N, 2_500), Blocks(200), Again(1, 2, 4, N, 1), Stop(3, 1, N), Stop(3, 1, M), End(3, 1, 3, N), End(3, 1, 5, M), Blocks(30)])),
    ];
    World { name: "XYK farms", depth: ck.pick(4, 5), events: false, actions: &acts, step: &|a: &Act, _: &mut ()| step(a), prepare: &|| {} }.explore(&ck, starts);
    ck.finish()
}
