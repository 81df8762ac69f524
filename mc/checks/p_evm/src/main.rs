//! P33, P34, P35: the runtime's own EVM parts, from its own source files: the precompile set with the token precompile,
//! permits (precompile and extrinsic), and the EVM fees.  The interpreter is a stand-in which the actions direct.
use codec::Encode;
use frame_support::{parameter_types, storage::unhashed, traits::{EnsureOrigin, Get, Time}, weights::{IdentityFee, Weight}};
use hydra_dx_math::ema::EmaPrice;
use hydradx_traits::{router::{AssetPair, RouteProvider, Trade}, NativePriceOracle, OraclePeriod, PriceOracle};
use orml_traits::parameter_type_with_key;
use pallet_evm::{PrecompileHandle, PrecompileResult};
use pallet_transaction_multi_payment as multi_payment;
use sp_core::{crypto::AccountId32, H160, H256, U256};
use sp_runtime::FixedU128;
use world::*;
// names under which the runtime's files look for these
extern crate self as ethabi;
extern crate self as pallet_evm_precompile_blake2;
extern crate self as pallet_evm_precompile_bn128;
extern crate self as pallet_evm_precompile_dispatch;
extern crate self as pallet_evm_precompile_modexp;
extern crate self as pallet_evm_precompile_simple;
/// the Solidity ABI, as far as the runtime writes it
#[derive(Clone, Debug)]
pub enum Token { Bool(bool), Uint(U256), Address(H160), Bytes(Vec<u8>), FixedBytes(Vec<u8>), Tuple(Vec<Token>), Array(Vec<Token>) }
fn word(x: U256) -> Vec<u8> { let mut b = [0u8; 32]; x.to_big_endian(&mut b); b.to_vec() }
fn padded(b: &[u8]) -> Vec<u8> { let mut v = b.to_vec(); while v.len() % 32 != 0 { v.push(0) } v }
pub fn encode(t: &[Token]) -> Vec<u8> {
    let (mut head, mut tail) = (vec![], vec![]);
    for x in t { match x {
        Token::Bool(b) => head.extend(word(U256::from(*b as u8))), Token::Uint(u) => head.extend(word(*u)), Token::FixedBytes(b) => head.extend(padded(b)),
        Token::Address(a) => { head.extend([0; 12]); head.extend(a.0) }
        Token::Bytes(b) => { head.extend(word(U256::from(32 * t.len() + tail.len()))); tail.extend(word(U256::from(b.len()))); tail.extend(padded(b)) }
        Token::Tuple(v) => head.extend(encode(v)),
        Token::Array(v) => { head.extend(word(U256::from(32 * t.len() + tail.len()))); tail.extend(word(U256::from(v.len()))); tail.extend(encode(v)) }
    } }
    head.extend(tail); head
}
/// the standard precompiles write down that they were called
macro_rules! standard { ($($n:ident $k:expr,)*) => { $(pub struct $n; impl pallet_evm::Precompile for $n { fn execute(h: &mut impl PrecompileHandle) -> PrecompileResult { called($k, h) } })* } }
standard! { ECRecover 1, Sha256 2, Ripemd160 3, Identity 4, Modexp 5, Bn128Add 6, Bn128Mul 7, Bn128Pairing 8, Blake2F 9, }
pub struct Dispatch<R>(std::marker::PhantomData<R>);
impl<R> pallet_evm::Precompile for Dispatch<R> { fn execute(h: &mut impl PrecompileHandle) -> PrecompileResult { called(200, h) } }
fn called(k: u8, h: &mut impl PrecompileHandle) -> PrecompileResult { Ok(pallet_evm::PrecompileOutput { exit_status: pallet_evm::ExitSucceed::Stopped, output: [vec![k], h.input().to_vec()].concat() }) }

pub mod evm {
    pub type ConsensusEngineId = [u8; 4];
    pub trait FindAuthor<A> { fn find_author<'a, I: 'a + IntoIterator<Item = (ConsensusEngineId, &'a [u8])>>(digests: I) -> Option<A>; }
    #[path = "/repo/runtime/hydradx/src/evm/precompiles/mod.rs"]
    pub mod precompiles;
    #[path = "/repo/runtime/hydradx/src/evm/accounts_conversion.rs"]
    pub mod accounts_conversion;
    #[path = "/repo/runtime/hydradx/src/evm/permit.rs"]
    pub mod permit;
    #[path = "/repo/runtime/hydradx/src/evm/evm_fee.rs"]
    pub mod evm_fee;
    #[path = "/repo/runtime/hydradx/src/evm/runner.rs"]
    pub mod runner;
    pub use accounts_conversion::ExtendedAddressMapping;
    pub use crate::Weth as WethAssetId;
}
pub type AccountId = AccountId32;
type Acc = AccountId32;
pub struct Aura;
impl Aura { pub fn authorities() -> Vec<Acc> { (1..4u8).map(|i| Acc::new(std::array::from_fn(|j| i * 40 + j as u8))).collect() } }

frame_support::construct_runtime!(pub enum Rt { System: frame_system, Balances: pallet_balances, Tokens: orml_tokens, Currencies: pallet_currencies, Registry: pallet_asset_registry, MultiTransactionPayment: multi_payment, TxPay: pallet_transaction_payment, Utility: pallet_utility, EVMAccounts: pallet_evm_accounts, Pause: pallet_transaction_pause, Fee: pallet_dynamic_evm_fee });
pub type Runtime = Rt;
world::system!(Rt, pallet_balances::AccountData<u128>, AccountId32, frame_support::weights::constants::RocksDbWeight);
const ED: [u128; 6] = [10, 2, 5, 1, 1, 1];
parameter_type_with_key! { pub Eds: |a: AssetId| -> Balance { ED.get(*a as usize).copied().unwrap_or(1) }; }
world::tokens!(Rt, Eds, frame_support::traits::Nothing, ());
world::balances!(Rt, 10);
parameter_types! { #[derive(Debug, PartialEq, Eq, Clone)] pub const Long: u32 = 40; #[derive(Debug, PartialEq, Eq, Clone)] pub const Short: u32 = 1; pub const Native: AssetId = 0; pub const Weth: AssetId = 3; pub TreasuryAccount: Acc = Acc::new([9; 32]); pub const First: AssetId = 1 << 25; }
impl pallet_currencies::Config for Rt { type RuntimeEvent = RuntimeEvent; type MultiCurrency = Tokens; type NativeCurrency = pallet_currencies::BasicCurrencyAdapter<Rt, Balances, i128, u64>; type GetNativeCurrencyId = Native; type WeightInfo = (); }
impl pallet_asset_registry::Config for Rt {
    type RuntimeEvent = RuntimeEvent; type Currency = Tokens; type RegistryOrigin = frame_system::EnsureRoot<Acc>; type UpdateOrigin = frame_system::EnsureRoot<Acc>; type AssetId = AssetId; type AssetNativeLocation = u8; type StringLimit = Long; type MinStringLimit = Short;
    type SequentialIdStartAt = First; type RegExternalWeightMultiplier = frame_support::traits::ConstU64<1>; type WeightInfo = ();
}
impl pallet_transaction_payment::Config for Rt { type RuntimeEvent = RuntimeEvent; type OnChargeTransaction = multi_payment::TransferFees<Currencies, multi_payment::DepositAll<Rt>, TreasuryAccount>; type OperationalFeeMultiplier = (); type WeightToFee = IdentityFee<Balance>; type LengthToFee = IdentityFee<Balance>; type FeeMultiplierUpdate = (); }
impl pallet_utility::Config for Rt { type RuntimeEvent = RuntimeEvent; type RuntimeCall = RuntimeCall; type PalletsOrigin = OriginCaller; type WeightInfo = (); }
pub struct Nonces;
impl pallet_evm_accounts::EvmNonceProvider for Nonces { fn get_nonce(_: H160) -> U256 { U256::zero() } }
impl pallet_evm_accounts::Config for Rt { type RuntimeEvent = RuntimeEvent; type EvmNonceProvider = Nonces; type FeeMultiplier = frame_support::traits::ConstU32<10>; type ControllerOrigin = frame_system::EnsureRoot<Acc>; type WeightInfo = (); }
impl pallet_transaction_pause::Config for Rt { type RuntimeEvent = RuntimeEvent; type UpdateOrigin = frame_system::EnsureRoot<Acc>; type WeightInfo = (); }
pub struct NoRoute;
impl RouteProvider<AssetId> for NoRoute { fn get_route(_: AssetPair<AssetId>) -> Vec<Trade<AssetId>> { vec![] } }
pub struct NoOracle;
impl PriceOracle<AssetId> for NoOracle { type Price = EmaPrice; fn price(_: &[Trade<AssetId>], _: OraclePeriod) -> Option<EmaPrice> { None } }
impl NativePriceOracle<AssetId, EmaPrice> for NoOracle { fn price(_: AssetId) -> Option<EmaPrice> { None } }
impl multi_payment::Config for Rt {
    type RuntimeEvent = RuntimeEvent; type AcceptedCurrencyOrigin = frame_system::EnsureRoot<Acc>; type Currencies = Currencies; type RouteProvider = NoRoute; type OraclePriceProvider = NoOracle; type WeightInfo = ();
    type WeightToFee = IdentityFee<Balance>; type NativeAssetId = Native; type EvmAssetId = Weth; type InspectEvmAccounts = EVMAccounts; type EvmPermit = evm::permit::EvmPermitHandler<Rt>; type TryCallCurrency<'a> = multi_payment::TryCallCurrency<Rt>;
}
const PRICE: u64 = 7;
impl pallet_dynamic_evm_fee::Config for Rt { type AssetId = AssetId; type MinBaseFeePerGas = frame_support::traits::ConstU128<1>; type MaxBaseFeePerGas = frame_support::traits::ConstU128<100>; type DefaultBaseFeePerGas = frame_support::traits::ConstU128<{ PRICE as u128 }>; type FeeMultiplier = Zero; type NativePriceOracle = NoOracle; type WethAssetId = Weth; type WeightInfo = (); }
pub struct Zero;
impl Get<FixedU128> for Zero { fn get() -> FixedU128 { FixedU128::from_inner(0) } }
const GAS: u64 = 1000;
pub struct Gas;
impl pallet_evm::GasWeightMapping for Gas {
    fn gas_to_weight(g: u64, no_base: bool) -> Weight { Weight::from_parts(g.saturating_mul(GAS) + if no_base { 0 } else { 1 }, 5) }
    fn weight_to_gas(w: Weight) -> u64 { w.ref_time() / GAS }
}
pub struct Clock;
impl Time for Clock { type Moment = u64; fn now() -> u64 { unhashed::get_or(b":ms", 0) } }
pub struct BlockGas;
impl Get<U256> for BlockGas { fn get() -> U256 { U256::from(60_000) } }
pub struct Set;
impl Get<evm::precompiles::HydraDXPrecompiles<Rt>> for Set { fn get() -> evm::precompiles::HydraDXPrecompiles<Rt> { evm::precompiles::HydraDXPrecompiles::new() } }
impl pallet_evm::Config for Rt {
    type Call = RuntimeCall; type FeeCalculator = Fee; type GasWeightMapping = Gas; type AddressMapping = evm::ExtendedAddressMapping; type PrecompilesType = evm::precompiles::HydraDXPrecompiles<Rt>; type PrecompilesValue = Set;
    type ChainId = frame_support::traits::ConstU64<222_222>; type Runner = permits::Run; type Timestamp = Clock; type BlockGasLimit = BlockGas;
}
fn keccak(b: &[u8]) -> [u8; 32] { use sha3::Digest; sha3::Keccak256::digest(b).into() }
/// the account behind an address: the bound one, or the one made from the address
fn account(a: H160) -> Acc {
    let tail: Option<[u8; 12]> = EVMAccounts::account(a);
    let mut b = [0; 32];
    match tail { Some(t) => { b[..20].copy_from_slice(&a.0); b[20..].copy_from_slice(&t) } None => { b[..4].copy_from_slice(b"ETH\0"); b[4..24].copy_from_slice(&a.0) } }
    Acc::new(b)
}
fn map() -> sp_io::Map { sp_io::with_ext(|e| e.map.clone()) }
mod fees;
mod permits;
mod tokens;
fn main() {
    match std::env::args().nth(1).as_deref() { Some("P33") => tokens::check(), Some("P34") => permits::check(), _ => fees::check() }
}
