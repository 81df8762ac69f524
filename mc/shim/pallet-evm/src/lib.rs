//! The parts of pallet-evm which the repository names: its configuration, its mappings, its runner's interface and
//! the codes of contracts.  There is no interpreter here; a harness gives the runner.
pub use evm::Config as EvmConfig;
pub use fp_evm::{Account, CallInfo, Context, CreateInfo, ExecutionInfoV2, ExitError, ExitFatal, ExitReason, ExitRevert, ExitSucceed, FeeCalculator, IsPrecompileResult, Log, Precompile, PrecompileFailure, PrecompileHandle, PrecompileOutput, PrecompileResult, PrecompileSet, Transfer, UsedGas, WeightInfo as EvmWeightInfo};
use frame_support::{dispatch::{GetDispatchInfo, PostDispatchInfo}, traits::{Get, Time}, weights::Weight};
use sp_core::{H160, H256, U256};
use sp_runtime::traits::Dispatchable;
pub trait AddressMapping<A> { fn into_account_id(address: H160) -> A; }
pub trait GasWeightMapping {
    fn gas_to_weight(gas: u64, without_base_weight: bool) -> Weight;
    fn weight_to_gas(weight: Weight) -> u64;
}
#[derive(Debug)]
pub struct RunnerError<E> { pub error: E, pub weight: Weight }
pub trait Runner<T: Config> {
    type Error: Into<sp_runtime::DispatchError>;
    fn validate(source: H160, target: Option<H160>, input: Vec<u8>, value: U256, gas_limit: u64, max_fee_per_gas: Option<U256>, max_priority_fee_per_gas: Option<U256>, nonce: Option<U256>, access_list: Vec<(H160, Vec<H256>)>, is_transactional: bool, weight_limit: Option<Weight>, proof_size_base_cost: Option<u64>, evm_config: &EvmConfig) -> Result<(), RunnerError<Self::Error>>;
    fn call(source: H160, target: H160, input: Vec<u8>, value: U256, gas_limit: u64, max_fee_per_gas: Option<U256>, max_priority_fee_per_gas: Option<U256>, nonce: Option<U256>, access_list: Vec<(H160, Vec<H256>)>, is_transactional: bool, validate: bool, weight_limit: Option<Weight>, proof_size_base_cost: Option<u64>, config: &EvmConfig) -> Result<CallInfo, RunnerError<Self::Error>>;
    #[allow(unused_variables)]
    fn create(source: H160, init: Vec<u8>, value: U256, gas_limit: u64, max_fee_per_gas: Option<U256>, max_priority_fee_per_gas: Option<U256>, nonce: Option<U256>, access_list: Vec<(H160, Vec<H256>)>, is_transactional: bool, validate: bool, weight_limit: Option<Weight>, proof_size_base_cost: Option<u64>, config: &EvmConfig) -> Result<CreateInfo, RunnerError<Self::Error>> { unimplemented!("this stand-in creates nothing") }
    #[allow(unused_variables)]
    fn create2(source: H160, init: Vec<u8>, salt: H256, value: U256, gas_limit: u64, max_fee_per_gas: Option<U256>, max_priority_fee_per_gas: Option<U256>, nonce: Option<U256>, access_list: Vec<(H160, Vec<H256>)>, is_transactional: bool, validate: bool, weight_limit: Option<Weight>, proof_size_base_cost: Option<u64>, config: &EvmConfig) -> Result<CreateInfo, RunnerError<Self::Error>> { unimplemented!("this stand-in creates nothing") }
}
pub trait Config: frame_system::Config<RuntimeCall = <Self as Config>::Call> {
    /// the runtime's call (a bound the real pallet states on `RuntimeCall`)
    type Call: Dispatchable<RuntimeOrigin = <Self as frame_system::Config>::RuntimeOrigin, PostInfo = PostDispatchInfo> + GetDispatchInfo;
    type FeeCalculator: FeeCalculator;
    type GasWeightMapping: GasWeightMapping;
    type AddressMapping: AddressMapping<Self::AccountId>;
    type PrecompilesType: PrecompileSet;
    type PrecompilesValue: Get<Self::PrecompilesType>;
    type ChainId: Get<u64>;
    type Runner: Runner<Self>;
    type Timestamp: Time;
    type BlockGasLimit: Get<U256>;
    fn config() -> &'static EvmConfig { static C: EvmConfig = EvmConfig::london(); &C }
}
#[derive(Clone, Debug, Default)]
pub struct CodeMetadata { pub size: u64 }
pub struct Pallet<T>(std::marker::PhantomData<T>);
impl<T: Config> Pallet<T> { pub fn account_code_metadata(a: H160) -> CodeMetadata { CodeMetadata { size: AccountCodes::<T>::get(a).len() as u64 } } }
pub struct AccountCodes<T>(std::marker::PhantomData<T>);
impl<T: Config> AccountCodes<T> { pub fn get(a: H160) -> Vec<u8> { frame_support::storage::unhashed::get_or(&codec::Encode::encode(&(b":code", a)), vec![]) } }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Error<T> { BalanceLow, FeeOverflow, PaymentOverflow, WithdrawFailed, GasPriceTooLow, InvalidNonce, GasLimitTooLow, GasLimitTooHigh, Undefined, Reentrancy, TransactionMustComeFromEOA, #[doc(hidden)] _Never(std::marker::PhantomData<T>, std::convert::Infallible) }
impl<T> From<Error<T>> for sp_runtime::DispatchError {
    fn from(e: Error<T>) -> Self { sp_runtime::DispatchError::Other(match e { Error::BalanceLow => "BalanceLow", Error::WithdrawFailed => "WithdrawFailed", Error::GasPriceTooLow => "GasPriceTooLow", Error::InvalidNonce => "InvalidNonce", _ => "evm" }) }
}
pub trait OnChargeEVMTransaction<T: Config> {
    type LiquidityInfo: Default;
    fn withdraw_fee(who: &H160, fee: U256) -> Result<Self::LiquidityInfo, Error<T>>;
    fn can_withdraw(who: &H160, amount: U256) -> Result<(), Error<T>>;
    fn correct_and_deposit_fee(who: &H160, corrected_fee: U256, base_fee: U256, already_withdrawn: Self::LiquidityInfo) -> Result<Self::LiquidityInfo, Error<T>>;
    fn pay_priority_fee(tip: Self::LiquidityInfo);
}
pub mod runner { pub use crate::{Runner, RunnerError}; }
impl<T> From<fp_evm::TransactionValidationError> for Error<T> {
    fn from(e: fp_evm::TransactionValidationError) -> Self {
        use fp_evm::TransactionValidationError as V;
        match e { V::BalanceTooLow => Error::BalanceLow, V::GasLimitTooLow => Error::GasLimitTooLow, V::GasLimitTooHigh => Error::GasLimitTooHigh, V::GasPriceTooLow => Error::GasPriceTooLow, V::PriorityFeeTooHigh => Error::GasPriceTooLow, V::TxNonceTooLow | V::TxNonceTooHigh => Error::InvalidNonce, _ => Error::Undefined }
    }
}
