//! P30: what the runtime's adapters tell the pallets about each other: the Omnipool's and stableswap's hooks into the
//! oracle, the circuit breaker, referrals and staking, and the prices, volumes and locks read back from them.
mod look;
mod prices;
use codec::{Decode, Encode};
use frame_support::{parameter_types, storage::unhashed, traits::{AsEnsureOriginWithArg, ConstU128, ConstU32, ConstU64, Everything, Get, Hooks as _, NeverEnsureOrigin, Nothing}, weights::Weight, BoundedVec, PalletId};
use hydra_dx_math::{ema::EmaPrice, omnipool::types::{AssetStateChange, BalanceUpdate::{self, Decrease, Increase}}};
use hydradx_traits::{oracle::{AggregatedOracle, OraclePeriod}, pools::DustRemovalAccountWhitelist, price::PriceProvider, registry::{AssetKind, Inspect as RegInspect}, AccountIdFor, OnLiquidityChangedHandler, OnTradeHandler};
use orml_traits::{parameter_type_with_key, GetByKey, MultiCurrency};
use pallet_circuit_breaker::Pallet as Cb;
use pallet_ema_oracle::{OnActivityHandler, MAX_PERIODS};
use pallet_omnipool::{traits::{AssetInfo, EnsurePriceWithin, ExternalPriceProvider, OmnipoolHooks, ShouldAllow}, types::{AssetReserveState, Tradability}};
use pallet_referrals::{FeeDistribution, Level};
use pallet_stableswap::types::{PoolState, StableswapHooks};
use pallet_staking::{traits::DemocracyReferendum, types::Action, SigmoidPercentage};
use runtime_adapters::{EmaOraclePriceAdapter, FreezableNFT, OmnipoolHookAdapter, OracleAssetVolumeProvider, StableswapHooksAdapter, VestingInfo};
use sp_runtime::{traits::AccountIdConversion, AccountId32, DispatchError, DispatchResult, FixedU128, Perbill, Permill};
use std::cell::Cell;
use std::num::NonZeroU16;
use world::*;

frame_support::construct_runtime!(pub enum Rt {
    System: frame_system, Balances: pallet_balances, Tokens: orml_tokens, Uniques: pallet_uniques, Omnipool: pallet_omnipool, Ema: pallet_ema_oracle, Breaker: pallet_circuit_breaker,
    Staking: pallet_staking, Referrals: pallet_referrals, Fees: pallet_dynamic_fees, Swap: pallet_stableswap, Lbp: pallet_lbp
});
world::system!(Rt, pallet_balances::AccountData<u128>, AccountId32);
world::balances!(Rt, 1);
parameter_type_with_key! { pub Eds: |_a: AssetId| -> Balance { 1 }; }
world::tokens!(Rt, Eds, Nothing, ());
pub const HDX: AssetId = 0;
pub const HUB: AssetId = 1;
pub fn acc(n: u8) -> AccountId32 { AccountId32::new([n; 32]) }
const ROOT_LP: u8 = 7;
const STAKERS: u8 = 40;
/// accounts which the circuit breaker and the price barrier let through
pub struct White;
impl frame_support::traits::Contains<AccountId32> for White { fn contains(a: &AccountId32) -> bool { *a == acc(5) } }
fn num(k: &[u8]) -> u32 { unhashed::get(k).unwrap_or(0) }
parameter_types! {
    pub const Hub: AssetId = HUB;
    pub const Hdx: AssetId = HDX;
    pub const Coll: u128 = 77;
    pub const StakeColl: u128 = 1;
    pub MinFee: Permill = Permill::from_percent(1);
    pub const Pid: PalletId = PalletId(*b"test_stk");
    pub const RefPid: PalletId = PalletId(*b"test_ref");
    pub const TimeW: Permill = Permill::from_percent(80);
    pub const ActionW: Perbill = Perbill::from_percent(20);
    pub const TimePer: u8 = 2;
    pub const StakeW: u8 = 2;
    pub const Free: u128 = 2;
    pub A: FixedU128 = FixedU128::from_rational(15, 100);
    pub Fee: (AssetId, Balance, AccountId32) = (HDX, 222, acc(50));
    pub Ext: Option<AccountId32> = if num(b":ext") == 1 { Some(acc(STAKERS)) } else { None };
    pub const Period: OraclePeriod = OraclePeriod::LastBlock;
    pub const Short: OraclePeriod = OraclePeriod::Short;
    pub Periods: BoundedVec<OraclePeriod, ConstU32<MAX_PERIODS>> = vec![OraclePeriod::LastBlock, OraclePeriod::Short, OraclePeriod::TenMinutes].try_into().unwrap();
    pub Room: u32 = 3 - num(b":tight");
    pub const Trade: (u32, u32) = (2_000, 10_000);
    pub AddLim: Option<(u32, u32)> = Some((1_000, 10_000));
    pub RemLim: Option<(u32, u32)> = Some((1_500, 10_000));
    pub Barrier: Permill = Permill::from_percent(8);
    pub AssetP: pallet_dynamic_fees::types::FeeParams<Permill> = params(10_000, 50_000);
    pub ProtocolP: pallet_dynamic_fees::types::FeeParams<Permill> = params(5_000, 20_000);
    pub Amps: std::ops::RangeInclusive<NonZeroU16> = NonZeroU16::new(2).unwrap()..=NonZeroU16::new(1000).unwrap();
}
fn params(a: u32, b: u32) -> pallet_dynamic_fees::types::FeeParams<Permill> { pallet_dynamic_fees::types::FeeParams { min_fee: Permill::from_parts(a), max_fee: Permill::from_parts(b), decay: FixedU128::from_rational(1, 1000), amplification: FixedU128::from_u32(2) } }
impl pallet_uniques::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type CollectionId = u128;
    type ItemId = u128;
    type Currency = Balances;
    type ForceOrigin = frame_system::EnsureRoot<AccountId32>;
    type CreateOrigin = AsEnsureOriginWithArg<NeverEnsureOrigin<AccountId32>>;
    type Locker = ();
    type CollectionDeposit = ConstU128<0>;
    type ItemDeposit = ConstU128<0>;
    type MetadataDepositBase = ConstU128<0>;
    type AttributeDepositBase = ConstU128<0>;
    type DepositPerByte = ConstU128<0>;
    type StringLimit = ConstU32<72>;
    type KeyLimit = ConstU32<256>;
    type ValueLimit = ConstU32<256>;
    type WeightInfo = ();
}
impl pallet_omnipool::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type AssetId = AssetId;
    type PositionItemId = u128;
    type CollectionId = u128;
    type Currency = Tokens;
    type AuthorityOrigin = frame_system::EnsureRoot<AccountId32>;
    type TechnicalOrigin = frame_system::EnsureRoot<AccountId32>;
    type HubAssetId = Hub;
    type HdxAssetId = Hdx;
    type NFTCollectionId = Coll;
    type NFTHandler = Uniques;
    type AssetRegistry = Reg;
    type MinimumTradingLimit = ConstU128<100>;
    type MinimumPoolLiquidity = ConstU128<100>;
    type MaxInRatio = ConstU128<2>;
    type MaxOutRatio = ConstU128<2>;
    type OmnipoolHooks = Sw;
    type PriceBarrier = EnsurePriceWithin<AccountId32, AssetId, Sw, Barrier, White>;
    type MinWithdrawalFee = MinFee;
    type ExternalPriceOracle = Sw;
    type Fee = pallet_dynamic_fees::UpdateAndRetrieveFees<Rt>;
    type WeightInfo = ();
}
impl pallet_dynamic_fees::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type BlockNumberProvider = System;
    type Fee = Permill;
    type AssetId = AssetId;
    type Oracle = Sw;
    type AssetFeeParameters = AssetP;
    type ProtocolFeeParameters = ProtocolP;
}
impl pallet_ema_oracle::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type WeightInfo = ();
    type AuthorityOrigin = frame_system::EnsureRoot<AccountId32>;
    type BlockNumberProvider = System;
    type SupportedPeriods = Periods;
    type OracleWhitelist = Everything;
    type MaxUniqueEntries = Room;
}
impl pallet_circuit_breaker::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type AssetId = AssetId;
    type Balance = Balance;
    type TechnicalOrigin = frame_system::EnsureRoot<AccountId32>;
    type WhitelistedAccounts = White;
    type DefaultMaxNetTradeVolumeLimitPerBlock = Trade;
    type DefaultMaxAddLiquidityLimitPerBlock = AddLim;
    type DefaultMaxRemoveLiquidityLimitPerBlock = RemLim;
    type OmnipoolHubAsset = Hub;
    type WeightInfo = ();
}
pub struct Refs;
impl DemocracyReferendum for Refs { fn is_referendum_finished(_: u32) -> bool { true } }
pub struct Points;
impl GetByKey<Action, u32> for Points { fn get(_: &Action) -> u32 { 100 } }
pub struct MinSlash;
impl GetByKey<FixedU128, u128> for MinSlash { fn get(_: &FixedU128) -> u128 { 1 } }
impl pallet_staking::Config for Rt {
    type WeightInfo = ();
    type RuntimeEvent = RuntimeEvent;
    type AssetId = AssetId;
    type Currency = Tokens;
    type PeriodLength = ConstU64<10>;
    type PalletId = Pid;
    type NativeAssetId = Hdx;
    type MinStake = ConstU128<10>;
    type TimePointsWeight = TimeW;
    type ActionPointsWeight = ActionW;
    type TimePointsPerPeriod = TimePer;
    type UnclaimablePeriods = Free;
    type CurrentStakeWeight = StakeW;
    type BlockNumberProvider = System;
    type PositionItemId = u128;
    type CollectionId = u128;
    type NFTCollectionId = StakeColl;
    type NFTHandler = Uniques;
    type PayablePercentage = SigmoidPercentage<A, ConstU32<3>>;
    type MaxVotes = ConstU32<2>;
    type MaxPointsPerAction = Points;
    type ReferendumInfo = Refs;
    type Vesting = VestingInfo<Rt>;
    type Collections = FreezableNFT<Rt, RuntimeOrigin>;
    type AuthorityOrigin = frame_system::EnsureRoot<AccountId32>;
    type MinSlash = MinSlash;
}
pub struct NoTrades;
impl pallet_referrals::traits::Convert<AccountId32, AssetId, Balance> for NoTrades { type Error = DispatchError; fn convert(_: AccountId32, _: AssetId, _: AssetId, _: u128) -> Result<u128, DispatchError> { Err(DispatchError::Other("no")) } }
/// HDX per asset; asset 3 has no price in some worlds
pub struct Priced;
impl PriceProvider<AssetId> for Priced { type Price = EmaPrice; fn get_price(_: AssetId, b: AssetId) -> Option<EmaPrice> { if b == 3 && num(b":noprice") == 1 { None } else { Some(EmaPrice::new(3, 1 + b as u128)) } } }
pub struct Levels;
impl GetByKey<Level, (Balance, FeeDistribution)> for Levels {
    fn get(l: &Level) -> (Balance, FeeDistribution) {
        let p = |a, b, c| FeeDistribution { referrer: Permill::from_percent(a), trader: Permill::from_percent(b), external: Permill::from_percent(c) };
        match l { Level::None => (0, p(0, 0, 50)), Level::Tier0 => (0, p(5, 10, 40)), _ => (1_000_000, p(20, 15, 10)) }
    }
}
impl pallet_referrals::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type AuthorityOrigin = frame_system::EnsureRoot<AccountId32>;
    type AssetId = AssetId;
    type Currency = Tokens;
    type Convert = NoTrades;
    type PriceProvider = Priced;
    type RewardAsset = Hdx;
    type PalletId = RefPid;
    type RegistrationFee = Fee;
    type CodeLength = ConstU32<6>;
    type MinCodeLength = ConstU32<3>;
    type LevelVolumeAndRewardPercentages = Levels;
    type ExternalAccount = Ext;
    type SeedNativeAmount = ConstU128<0>;
    type WeightInfo = ();
}
impl pallet_stableswap::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type AssetId = AssetId;
    type Currency = Tokens;
    type ShareAccountId = PoolAcc;
    type AssetInspection = Reg;
    type AuthorityOrigin = frame_system::EnsureRoot<AccountId32>;
    type MinPoolLiquidity = ConstU128<20>;
    type AmplificationRange = Amps;
    type MinTradingLimit = ConstU128<3>;
    type WeightInfo = ();
    type BlockNumberProvider = System;
    type DustAccountHandler = Dust;
    type Hooks = Sw;
}
pub struct PoolAcc;
impl AccountIdFor<AssetId> for PoolAcc { type AccountId = AccountId32; fn from_assets(a: &AssetId, _: Option<&[u8]>) -> AccountId32 { acc(100 + *a as u8) } fn name(a: &AssetId, _: Option<&[u8]>) -> Vec<u8> { a.to_le_bytes().to_vec() } }
pub struct Dust;
impl DustRemovalAccountWhitelist<AccountId32> for Dust { type Error = DispatchError; fn add_account(_: &AccountId32) -> Result<(), DispatchError> { Ok(()) } fn remove_account(_: &AccountId32) -> Result<(), DispatchError> { Ok(()) } }
pub struct Reg;
impl RegInspect for Reg {
    type AssetId = AssetId;
    type Location = ();
    fn is_sufficient(_: AssetId) -> bool { true }
    fn exists(_: AssetId) -> bool { true }
    fn decimals(a: AssetId) -> Option<u8> { Some(if a >= 10 { 18 } else { 12 }) }
    fn asset_type(_: AssetId) -> Option<AssetKind> { None }
    fn is_banned(_: AssetId) -> bool { false }
    fn asset_name(_: AssetId) -> Option<Vec<u8>> { None }
    fn asset_symbol(_: AssetId) -> Option<Vec<u8>> { None }
    fn existential_deposit(_: AssetId) -> Option<u128> { Some(1) }
}

// ---- the adapters, and what they must do ----
thread_local! { static SPEC: Cell<bool> = Cell::new(false); }
fn spec() -> bool { SPEC.with(|s| s.get()) }
type Real = OmnipoolHookAdapter<RuntimeOrigin, Hdx, Hub, Rt>;
type Info = AssetInfo<AssetId, Balance>;
type Act_ = OnActivityHandler<Rt>;
const OMNI: [u8; 8] = *b"omnipool";
const STABLE: [u8; 8] = *b"stablesw";
fn size(x: &BalanceUpdate<u128>) -> u128 { match x { Increase(n) | Decrease(n) => *n } }
/// the oracle hears of the asset against the hub asset: what moved, what is there now, and the price that makes
fn heard(i: &Info, trade: bool, sold: bool) -> DispatchResult {
    let (moved, hub, r, h) = (size(&i.delta_changes.delta_reserve), size(&i.delta_changes.delta_hub_reserve), i.after.reserve, i.after.hub_reserve);
    if !trade { <Act_ as OnLiquidityChangedHandler<AssetId, Balance, EmaPrice>>::on_liquidity_changed(OMNI, i.asset_id, HUB, moved, hub, r, h, EmaPrice::new(r, h)).map_err(|e| e.1)?; }
    else if sold { <Act_ as OnTradeHandler<AssetId, Balance, EmaPrice>>::on_trade(OMNI, i.asset_id, HUB, moved, hub, r, h, EmaPrice::new(r, h)).map_err(|e| e.1)?; }
    else { <Act_ as OnTradeHandler<AssetId, Balance, EmaPrice>>::on_trade(OMNI, HUB, i.asset_id, hub, moved, h, r, EmaPrice::new(h, r)).map_err(|e| e.1)?; }
    Ok(())
}
pub struct Sw;
impl OmnipoolHooks<RuntimeOrigin, AccountId32, AssetId, Balance> for Sw {
    type Error = DispatchError;
    fn on_liquidity_changed(o: RuntimeOrigin, i: Info) -> Result<Weight, DispatchError> {
        if !spec() { return Real::on_liquidity_changed(o, i) }
        heard(&i, false, false)?;
        match i.delta_changes.delta_reserve {
            Increase(n) => { Cb::<Rt>::ensure_add_liquidity_limit(o, i.asset_id, i.before.reserve, n)?; }
            Decrease(n) => if !i.safe_withdrawal { Cb::<Rt>::ensure_remove_liquidity_limit(o, i.asset_id, i.before.reserve, n)?; },
        }
        Ok(Real::on_liquidity_changed_weight())
    }
    fn on_trade(o: RuntimeOrigin, a: Info, b: Info) -> Result<Weight, DispatchError> {
        if !spec() { return Real::on_trade(o, a, b) }
        heard(&a, true, true)?;
        heard(&b, true, false)?;
        Cb::<Rt>::ensure_pool_state_change_limit(a.asset_id, a.before.reserve, size(&a.delta_changes.delta_reserve), b.asset_id, b.before.reserve, size(&b.delta_changes.delta_reserve))?;
        Ok(Real::on_trade_weight())
    }
    fn on_hub_asset_trade(o: RuntimeOrigin, b: Info) -> Result<Weight, DispatchError> {
        if !spec() { return Real::on_hub_asset_trade(o, b) }
        heard(&b, true, false)?;
        Cb::<Rt>::ensure_pool_state_change_limit(HUB, 0, 0, b.asset_id, b.before.reserve, size(&b.delta_changes.delta_reserve))?;
        Ok(Real::on_trade_weight())
    }
    fn on_liquidity_changed_weight() -> Weight { Real::on_liquidity_changed_weight() }
    fn on_trade_weight() -> Weight { Real::on_trade_weight() }
    fn on_trade_fee(from: AccountId32, trader: AccountId32, a: AssetId, n: Balance) -> Result<Balance, DispatchError> {
        if !spec() { return Real::on_trade_fee(from, trader, a, n) }
        match a {
            HUB => Ok(0),
            // fees in HDX are for the stakers, from whenever there can be any
            HDX => { if Uniques::collection_owner(1).is_none() { return Ok(0) } <Tokens as MultiCurrency<AccountId32>>::transfer(HDX, &from, &Pid::get().into_account_truncating(), n)?; Ok(n) }
            _ => Referrals::process_trade_fee(from, trader, a, n),
        }
    }
}
impl ExternalPriceProvider<AssetId, EmaPrice> for Sw {
    type Error = DispatchError;
    fn get_price(a: AssetId, b: AssetId) -> Result<EmaPrice, DispatchError> {
        if !spec() { return EmaOraclePriceAdapter::<Period, Rt>::get_price(a, b) }
        entry(a, b, OraclePeriod::LastBlock).map(|e| e.0).ok_or(pallet_omnipool::Error::<Rt>::InvalidOraclePrice.into())
    }
    fn get_price_weight() -> Weight { EmaOraclePriceAdapter::<Period, Rt>::get_price_weight() }
}
type Seen = (EmaPrice, (u128, u128), u128);
/// price of a in b, volume (in, out) and liquidity of a
fn entry(a: AssetId, b: AssetId, p: OraclePeriod) -> Option<Seen> {
    let (x, y) = if a < b { (a, b) } else { (b, a) };
    let e = <Ema as AggregatedOracle<AssetId, Balance, u64, EmaPrice>>::get_entry(x, y, p, OMNI).ok()?;
    Some(if a < b { (e.price, (e.volume.a_in, e.volume.a_out), e.liquidity.a) } else { (e.price.inverted(), (e.volume.b_in, e.volume.b_out), e.liquidity.b) })
}
pub struct Volume(u128, u128);
impl pallet_dynamic_fees::traits::Volume<Balance> for Volume { fn amount_in(&self) -> Balance { self.0 } fn amount_out(&self) -> Balance { self.1 } }
impl pallet_dynamic_fees::traits::VolumeProvider<AssetId, Balance> for Sw {
    type Volume = Volume;
    fn asset_volume(a: AssetId) -> Option<Volume> {
        use pallet_dynamic_fees::traits::Volume as V;
        if !spec() { return OracleAssetVolumeProvider::<Rt, Hub, Short>::asset_volume(a).map(|v| Volume(v.amount_in(), v.amount_out())) }
        entry(a, HUB, OraclePeriod::Short).map(|e| Volume(e.1 .0, e.1 .1))
    }
    fn asset_liquidity(a: AssetId) -> Option<Balance> {
        if !spec() { return OracleAssetVolumeProvider::<Rt, Hub, Short>::asset_liquidity(a) }
        entry(a, HUB, OraclePeriod::Short).map(|e| e.2)
    }
}
impl StableswapHooks<AssetId> for Sw {
    fn on_liquidity_changed(p: AssetId, s: PoolState<AssetId>) -> DispatchResult {
        if !spec() { return StableswapHooksAdapter::<Rt>::on_liquidity_changed(p, s) }
        told(p, s, true)
    }
    fn on_trade(p: AssetId, i: AssetId, o: AssetId, s: PoolState<AssetId>) -> DispatchResult {
        if !spec() { return StableswapHooksAdapter::<Rt>::on_trade(p, i, o, s) }
        told(p, s, false)
    }
    fn on_liquidity_changed_weight(n: usize) -> Weight { StableswapHooksAdapter::<Rt>::on_liquidity_changed_weight(n) }
    fn on_trade_weight(n: usize) -> Weight { StableswapHooksAdapter::<Rt>::on_trade_weight(n) }
}
/// the oracle hears of every asset of the pool against its share; shares move by a change of liquidity only
fn told(p: AssetId, s: PoolState<AssetId>, liquidity: bool) -> DispatchResult {
    let n = s.assets.len();
    if [s.before.len(), s.after.len(), s.delta.len(), s.share_prices.len()].iter().any(|l| *l != n) { return Err(pallet_stableswap::Error::<Rt>::IncorrectAssets.into()) }
    for (k, a) in s.assets.iter().enumerate() {
        let price = EmaPrice::new(s.share_prices[k].0, s.share_prices[k].1);
        let minted = s.issuance_before.max(s.issuance_after) - s.issuance_before.min(s.issuance_after);
        if liquidity { <Act_ as OnLiquidityChangedHandler<AssetId, Balance, EmaPrice>>::on_liquidity_changed(STABLE, *a, p, s.delta[k], minted, s.after[k], s.issuance_after, price).map_err(|e| e.1)?; }
        else { <Act_ as OnTradeHandler<AssetId, Balance, EmaPrice>>::on_trade(STABLE, *a, p, s.delta[k], 0, s.after[k], s.issuance_after, price).map_err(|e| e.1)?; }
    }
    Ok(())
}

// ---- the world ----
#[derive(Clone, Debug)]
enum Act { Sell(u8, AssetId, AssetId, u128), Buy(u8, AssetId, AssetId, u128), Add(u8, AssetId, u128), Remove(u8, u128, u128), Tradable(AssetId, u8), Block(u64), Stake, Raw(u8, usize, usize), Fee(u8, AssetId, u128), Stable(bool, usize) }
fn st(r: u128, h: u128) -> AssetReserveState<u128> { AssetReserveState { reserve: r, hub_reserve: h, shares: r, protocol_shares: 0, cap: 0, tradable: Tradability::default() } }
const BIG: u128 = u128::MAX;
/// hooks may be told of any change
fn info(k: usize) -> Info {
    let (a, before, after, r, h, safe) = match k {
        0 => (2, st(1000, 500), st(1100, 455), Increase(100), Decrease(45), false),
        1 => (3, st(400, 800), st(380, 845), Decrease(20), Increase(45), false),
        2 => (0, st(1000, 500), st(1090, 555), Increase(90), Increase(55), false),
        3 => (2, st(1000, 500), st(700, 350), Decrease(300), Decrease(150), false),
        4 => (2, st(1000, 500), st(700, 350), Decrease(300), Decrease(150), true),
        5 => (3, st(0, 0), st(10, 7), Increase(10), Increase(7), false),
        6 => (0, st(BIG, BIG), st(BIG - 9, BIG - 3), Decrease(9), Decrease(3), false),
        7 => (2, st(1000, 500), st(0, 0), Decrease(1000), Decrease(500), true),
        8 => (3, st(BIG / 2, BIG), st(BIG, BIG / 7), Increase(BIG / 2), Decrease(BIG / 7 * 6), false),
        _ => (HUB, st(50, 50), st(60, 70), Increase(10), Increase(20), false),
    };
    Info { asset_id: a, before, after, delta_changes: AssetStateChange { delta_reserve: r, delta_hub_reserve: h, ..Default::default() }, safe_withdrawal: safe }
}
fn pool(k: usize) -> PoolState<AssetId> {
    let mut s = PoolState { assets: vec![2, 3], before: vec![100, 200], after: vec![130, 170], delta: vec![30, 30], issuance_before: 1000, issuance_after: 1000, share_prices: vec![(7, 9), (5, 3)] };
    match k {
        0 => {}
        1 => { s.assets.push(12); s.before.push(5); s.after.push(6); s.delta.push(1); s.share_prices.push((1, BIG)); s.issuance_after = 1400; }
        2 => { s.issuance_after = 300; s.after = vec![60, 10]; s.delta = vec![40, 190]; }
        3 => { s.before.pop(); } 4 => { s.after.pop(); } 5 => { s.delta.push(1); } 6 => { s.share_prices.pop(); } 7 => { s.assets.pop(); }
        8 => { s = PoolState { assets: vec![], before: vec![], after: vec![], delta: vec![], issuance_before: 3, issuance_after: 4, share_prices: vec![] }; }
        9 => { s.after = vec![0, 170]; s.issuance_after = 0; }
        10 => { s.share_prices = vec![(0, 0), (3, 0)]; }
        _ => { s.after = vec![BIG, BIG]; s.delta = vec![BIG, BIG]; s.issuance_after = BIG; s.issuance_before = 0; s.share_prices = vec![(BIG, 1), (1, BIG)]; }
    }
    s
}
fn run(a: &Act) -> Result<String, DispatchError> {
    let by = |w: u8| signed_by::<AccountId32, RuntimeOrigin>(acc(w));
    let root = || RuntimeOrigin::from(frame_system::RawOrigin::Root);
    let done = |r: DispatchResult| r.map(|_| String::new());
    match a.clone() {
        Act::Sell(w, i, o, x) => done(call(|| Omnipool::sell(by(w), i, o, x, 0))),
        Act::Buy(w, i, o, x) => done(call(|| Omnipool::buy(by(w), o, i, x, BIG))),
        Act::Add(w, a, x) => done(call(|| Omnipool::add_liquidity(by(w), a, x))),
        Act::Remove(w, p, x) => done(call(|| Omnipool::remove_liquidity(by(w), p, x))),
        Act::Tradable(a, t) => done(call(|| Omnipool::set_asset_tradable_state(root(), a, Tradability::from_bits_truncate(t)))),
        Act::Block(n) => { let b = System::block_number(); Breaker::on_finalize(b); Ema::on_finalize(b); System::set_block_number(b + n); Ema::on_initialize(b + n); Breaker::on_initialize(b + n); Ok(String::new()) }
        Act::Stake => done(call(|| Staking::initialize_staking(root()))),
        Act::Raw(w, k, l) => call(|| match l { 90 => <Sw as OmnipoolHooks<RuntimeOrigin, AccountId32, AssetId, Balance>>::on_liquidity_changed(by(w), info(k)), 91 => Sw::on_hub_asset_trade(by(w), info(k)), 92 => <Sw as OmnipoolHooks<RuntimeOrigin, AccountId32, AssetId, Balance>>::on_liquidity_changed(root(), info(k)), l => <Sw as OmnipoolHooks<RuntimeOrigin, AccountId32, AssetId, Balance>>::on_trade(by(w), info(k), info(l)) }).map(|w| format!("{w:?}")),
        Act::Fee(w, a, x) => call(|| Sw::on_trade_fee(acc(ROOT_LP), acc(w), a, x)).map(|n| format!("{n}")),
        Act::Stable(liq, k) => done(call(|| if liq { <Sw as StableswapHooks<AssetId>>::on_liquidity_changed(10, pool(k)) } else { <Sw as StableswapHooks<AssetId>>::on_trade(10, 2, 3, pool(k)) })),
    }
}
fn chain() -> Vec<(Vec<u8>, Vec<u8>)> { sp_io::with_ext(|e| e.map.iter().map(|(k, v)| (k.to_vec(), v.to_vec())).collect()) }
fn events() -> String { format!("{:?}", System::events()) }
fn step(a: &Act) -> Result<bool, Wrong> {
    let before = chain();
    let ev = |n: usize| { let e = System::events(); format!("{:?}", &e[n.min(e.len())..]) };
    let n = System::events().len();
    let want = dry(|| { SPEC.with(|s| s.set(true)); let r = run(a); SPEC.with(|s| s.set(false)); (r, chain(), ev(n)) });
    SPEC.with(|s| s.set(false));
    let r = run(a);
    must!(r == want.0, "result", "{r:?}, not {:?}", want.0);
    let now = chain();
    must!(now == want.1, "storage", "storage differs: {}", diff(&want.1, &now));
    must!(ev(n) == want.2, "events", "{} instead of {}", ev(n), want.2);
    if r.is_err() { must!(now == before, "refused", "a refused call changed {}", diff(&before, &now)); }
    queries()?;
    Ok(r.is_ok())
}
fn diff(a: &[(Vec<u8>, Vec<u8>)], b: &[(Vec<u8>, Vec<u8>)]) -> String {
    let hex = |x: &[u8]| x.iter().map(|b| format!("{b:02x}")).collect::<String>();
    let f = |x: &[(Vec<u8>, Vec<u8>)], y: &[(Vec<u8>, Vec<u8>)]| x.iter().filter(|e| !y.contains(e)).take(3).map(|(k, v)| format!("{} ({}) = {}", String::from_utf8_lossy(k).chars().filter(|c| c.is_ascii_graphic()).take(40).collect::<String>(), hex(&k[k.len().saturating_sub(8)..]), hex(v))).collect::<Vec<_>>().join(", ");
    format!("expected [{}], got [{}]", f(a, b), f(b, a))
}
fn queries() -> Result<(), Wrong> {
    use pallet_dynamic_fees::traits::{Volume as _, VolumeProvider};
    for a in 0..4u32 {
        for (x, y) in [(a, HUB), (HUB, a), (a, 2)] {
            let both = [false, true].map(|s| { SPEC.with(|c| c.set(s)); let r = <Sw as ExternalPriceProvider<AssetId, EmaPrice>>::get_price(x, y); SPEC.with(|c| c.set(false)); r });
            // the price of an asset in itself is not asked for
            if x != y { must!(both[0] == both[1], "price", "price of {x} in {y}: {:?}, not {:?}", both[0], both[1]); }
        }
        let both = [false, true].map(|s| { SPEC.with(|c| c.set(s)); let r = (Sw::asset_volume(a).map(|v| (v.amount_in(), v.amount_out())), Sw::asset_liquidity(a)); SPEC.with(|c| c.set(false)); r });
        if a != HUB { must!(both[0] == both[1], "volume", "volume and liquidity of {a}: {:?}, not {:?}", both[0], both[1]); }
    }
    // the barrier lets a price through that is within its share of the middle of both
    for a in [0, 2, 3] {
        for (n, d) in [(1u128, 1u128), (2, 1), (1, 2), (108, 200), (92, 200), (100, 200)] {
            for who in [acc(1), acc(5)] {
                let got = <EnsurePriceWithin<AccountId32, AssetId, Sw, Barrier, White> as ShouldAllow<AccountId32, AssetId, EmaPrice>>::ensure_price(&who, HUB, a, EmaPrice::new(n, d)).is_ok();
                let near = entry(HUB, a, OraclePeriod::LastBlock).map_or(false, |e| {
                    let f = |n: u128, d: u128| (sp_core::U256::from(n) * sp_core::U256::from(E18)).checked_div(sp_core::U256::from(d)).filter(|x| *x <= sp_core::U256::from(BIG));
                    match (f(e.0.n, e.0.d), f(n, d)) { (Some(p), Some(q)) => { let (hi, lo) = (p.max(q), p.min(q)); hi + lo <= sp_core::U256::from(BIG) && (hi - lo) * 2 <= (hi + lo) * 8 / 100 && (hi - lo) * 2 <= sp_core::U256::from(BIG) } _ => false }
                });
                must!(got == (who == acc(5) || near), "barrier", "price {n}/{d} of asset {a} for {who:?} is let through: {got}");
            }
        }
    }
    Ok(())
}
const E18: u128 = 1_000_000_000_000_000_000;
fn pot() -> AccountId32 { Omnipool::protocol_account() }
fn begin(name: &str, knobs: &[&[u8]], acts: &[Act]) -> Start<()> {
    start(name, || {
        System::set_block_number(1);
        let give = |a: AssetId, w: &AccountId32, x: u128| <Tokens as MultiCurrency<AccountId32>>::deposit(a, w, x).unwrap();
        for w in [1, 2, 5, ROOT_LP] { for a in 0..4 { give(a, &acc(w), 10_000_000); } }
        give(HDX, &Pid::get().into_account_truncating(), 1000);
        for (a, x, p) in [(0, 1_000_000, E18 / 2), (2, 600_000, 2 * E18), (3, 800_000, E18)] {
            give(a, &pot(), x);
            call(|| Omnipool::add_token(frame_system::RawOrigin::Root.into(), a, FixedU128::from_inner(p), Permill::from_percent(100), acc(ROOT_LP))).expect("listed");
        }
        let code = |c: &[u8]| BoundedVec::try_from(c.to_vec()).unwrap();
        call(|| Referrals::register_code(signed_by(acc(2)), code(b"ABC"))).expect("code");
        call(|| Referrals::link_code(signed_by(acc(1)), code(b"ABC"))).expect("link");
        if knobs.contains(&&b":tight"[..]) { run(&Act::Block(1)).unwrap(); }
        for k in knobs { unhashed::put(k, &1u32); }
        for a in acts { match step(a) { Ok(true) => {} Ok(false) => panic!("{a:?} refused in the start {name}: {:?}", run(a)), Err(w) => panic!("{a:?} in the start {name}: {} {}", w.0, w.1) } }
    })
}
fn main() {
    let ck = kit::Check::new("P30");
    let acts = |_: &()| {
        let mut v = vec![];
        for w in [1, 2] { for (i, o) in [(2, 3), (3, 2), (0, 2), (3, 0), (1, 2), (1, 0)] { for x in [90, 10_000, 110_000] { v.push(Act::Sell(w, i, o, x)); } } }
        for w in [1, 5] { for (i, o) in [(2, 3), (0, 3), (2, 0), (1, 3)] { for x in [5_000, 170_000] { v.push(Act::Buy(w, i, o, x)); } } }
        for w in [1, 5] { for a in [0, 2, 3] { for x in [1_000, 70_000] { v.push(Act::Add(w, a, x)); } } }
        for (p, x) in [(0, 100_000), (0, 200_000), (2, 50_000), (1, 600_000), (3, 1_000)] { v.push(Act::Remove(ROOT_LP, p, x)); v.push(Act::Remove(1, p, x)); }
        v.push(Act::Tradable(2, 8)); v.push(Act::Tradable(2, 15)); v.push(Act::Tradable(0, 8));
        for n in [1, 5, 200] { v.push(Act::Block(n)); }
        v.push(Act::Stake);
        v
    };
    let day = |e: &[Act]| { let mut v = vec![Act::Block(1)]; v.extend_from_slice(e); v };
    let starts = vec![
        begin("listed just now", &[], &[]),
        begin("a day of trades", &[b":ext"], &day(&[Act::Stake, Act::Sell(1, 2, 3, 50_000), Act::Block(1), Act::Buy(2, 0, 3, 30_000), Act::Sell(2, 1, 2, 20_000), Act::Block(1), Act::Add(1, 3, 60_000), Act::Block(3)])),
        begin("no room for a third pair", &[b":tight", b":noprice"], &day(&[Act::Sell(1, 2, 0, 50_000)])),
        begin("only out", &[b":ext", b":noprice"], &day(&[Act::Add(1, 2, 40_000), Act::Block(1), Act::Tradable(2, 8)])),
    ];
    World { name: "trading", depth: ck.pick(3, 4), events: true, actions: &acts, step: &|a: &Act, _: &mut ()| step(a), prepare: &|| SPEC.with(|s| s.set(false)) }.explore(&ck, starts);
    let acts = |_: &()| {
        let mut v = vec![];
        for k in 0..10 { for l in [90, 91, 92] { v.push(Act::Raw(1, k, l)); } v.push(Act::Raw(5, k, 90)); for l in [0, 1, 2, 6, 8] { v.push(Act::Raw(1, k, l)); v.push(Act::Raw(1, l, k)); } }
        for k in 0..12 { v.push(Act::Stable(true, k)); v.push(Act::Stable(false, k)); }
        for w in [1, 2] { for a in 0..4 { for x in [0, 1, 999, 20_000_000] { v.push(Act::Fee(w, a, x)); } } }
        v.push(Act::Block(1)); v.push(Act::Block(7)); v.push(Act::Stake);
        v
    };
    let starts = vec![begin("calm", &[b":ext"], &[Act::Stake]), begin("no stakers", &[b":noprice"], &[Act::Block(1)]), begin("little room", &[b":tight", b":ext"], &[Act::Block(1)])];
    World { name: "hooks", depth: ck.pick(2, 3), events: true, actions: &acts, step: &|a: &Act, _: &mut ()| step(a), prepare: &|| SPEC.with(|s| s.set(false)) }.explore(&ck, starts);
    prices::check(&ck);
    look::check(&ck);
    ck.finish()
}
