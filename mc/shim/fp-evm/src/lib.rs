//! What precompiles, the runtime and the EVM say to each other.
pub use evm::{backend::{Basic as Account, Log}, Config, Context, ExitError, ExitFatal, ExitReason, ExitRevert, ExitSucceed, Transfer};
use frame_support::weights::Weight;
use primitive_types::{H160, H256, U256};
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PrecompileOutput { pub exit_status: ExitSucceed, pub output: Vec<u8> }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum PrecompileFailure { Error { exit_status: ExitError }, Revert { exit_status: ExitRevert, output: Vec<u8> }, Fatal { exit_status: ExitFatal } }
impl From<ExitError> for PrecompileFailure { fn from(e: ExitError) -> Self { PrecompileFailure::Error { exit_status: e } } }
pub type PrecompileResult = Result<PrecompileOutput, PrecompileFailure>;
pub trait PrecompileHandle {
    fn call(&mut self, to: H160, transfer: Option<Transfer>, input: Vec<u8>, gas_limit: Option<u64>, is_static: bool, context: &Context) -> (ExitReason, Vec<u8>);
    fn record_cost(&mut self, cost: u64) -> Result<(), ExitError>;
    fn record_external_cost(&mut self, ref_time: Option<u64>, proof_size: Option<u64>, storage_growth: Option<u64>) -> Result<(), ExitError>;
    fn refund_external_cost(&mut self, ref_time: Option<u64>, proof_size: Option<u64>);
    fn remaining_gas(&self) -> u64;
    fn log(&mut self, address: H160, topics: Vec<H256>, data: Vec<u8>) -> Result<(), ExitError>;
    fn code_address(&self) -> H160;
    fn input(&self) -> &[u8];
    fn context(&self) -> &Context;
    fn is_static(&self) -> bool;
    fn gas_limit(&self) -> Option<u64>;
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum IsPrecompileResult { Answer { is_precompile: bool, extra_cost: u64 }, OutOfGas }
pub trait PrecompileSet {
    fn execute(&self, handle: &mut impl PrecompileHandle) -> Option<PrecompileResult>;
    fn is_precompile(&self, address: H160, remaining_gas: u64) -> IsPrecompileResult;
}
impl PrecompileSet for () {
    fn execute(&self, _: &mut impl PrecompileHandle) -> Option<PrecompileResult> { None }
    fn is_precompile(&self, _: H160, _: u64) -> IsPrecompileResult { IsPrecompileResult::Answer { is_precompile: false, extra_cost: 0 } }
}
pub trait Precompile { fn execute(handle: &mut impl PrecompileHandle) -> PrecompileResult; }
pub trait FeeCalculator {
    /// the least price of gas, and the weight of finding it out
    fn min_gas_price() -> (U256, Weight);
}
impl FeeCalculator for () { fn min_gas_price() -> (U256, Weight) { (U256::zero(), Weight::zero()) } }
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct WeightInfo { pub ref_time_limit: Option<u64>, pub proof_size_limit: Option<u64>, pub ref_time_usage: Option<u64>, pub proof_size_usage: Option<u64> }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct UsedGas { pub standard: U256, pub effective: U256 }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ExecutionInfoV2<T> { pub exit_reason: ExitReason, pub value: T, pub used_gas: UsedGas, pub weight_info: Option<WeightInfo>, pub logs: Vec<Log> }
pub type CallInfo = ExecutionInfoV2<Vec<u8>>;
pub type CreateInfo = ExecutionInfoV2<H160>;
// ---- what a transaction is checked for before it runs (fp-evm's validation)
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum TransactionValidationError { GasLimitTooLow, GasLimitTooHigh, GasPriceTooLow, PriorityFeeTooHigh, BalanceTooLow, TxNonceTooLow, TxNonceTooHigh, InvalidFeeInput, InvalidChainId, InvalidSignature, UnknownError }
#[derive(Debug)]
pub struct CheckEvmTransactionInput { pub chain_id: Option<u64>, pub to: Option<H160>, pub input: Vec<u8>, pub nonce: U256, pub gas_limit: U256, pub gas_price: Option<U256>, pub max_fee_per_gas: Option<U256>, pub max_priority_fee_per_gas: Option<U256>, pub value: U256, pub access_list: Vec<(H160, Vec<H256>)> }
#[derive(Debug)]
pub struct CheckEvmTransactionConfig<'config> { pub evm_config: &'config evm::Config, pub block_gas_limit: U256, pub base_fee: U256, pub chain_id: u64, pub is_transactional: bool }
pub struct CheckEvmTransaction<'config, E: From<TransactionValidationError>> { pub config: CheckEvmTransactionConfig<'config>, pub transaction: CheckEvmTransactionInput, pub weight_limit: Option<Weight>, pub proof_size_base_cost: Option<u64>, _marker: std::marker::PhantomData<E> }
impl<'config, E: From<TransactionValidationError>> CheckEvmTransaction<'config, E> {
    pub fn new(config: CheckEvmTransactionConfig<'config>, transaction: CheckEvmTransactionInput, weight_limit: Option<Weight>, proof_size_base_cost: Option<u64>) -> Self { Self { config, transaction, weight_limit, proof_size_base_cost, _marker: Default::default() } }
    pub fn validate_in_pool_for(&self, who: &Account) -> Result<&Self, E> { if self.transaction.nonce < who.nonce { return Err(TransactionValidationError::TxNonceTooLow.into()) } self.validate_common() }
    pub fn validate_in_block_for(&self, who: &Account) -> Result<&Self, E> {
        if self.transaction.nonce > who.nonce { return Err(TransactionValidationError::TxNonceTooHigh.into()) }
        if self.transaction.nonce < who.nonce { return Err(TransactionValidationError::TxNonceTooLow.into()) }
        self.validate_common()
    }
    pub fn with_chain_id(&self) -> Result<&Self, E> { match self.transaction.chain_id { Some(c) if c != self.config.chain_id => Err(TransactionValidationError::InvalidChainId.into()), _ => Ok(self) } }
    pub fn with_base_fee(&self) -> Result<&Self, E> {
        let (price, _) = self.transaction_fee_input()?;
        if (self.config.is_transactional || price > U256::zero()) && price < self.config.base_fee { return Err(TransactionValidationError::GasPriceTooLow.into()) }
        Ok(self)
    }
    pub fn with_balance_for(&self, who: &Account) -> Result<&Self, E> {
        let (max, _) = self.transaction_fee_input()?;
        let fee = max.saturating_mul(self.transaction.gas_limit);
        if self.config.is_transactional || fee > U256::zero() {
            if who.balance < self.transaction.value.saturating_add(fee) { return Err(TransactionValidationError::BalanceTooLow.into()) }
        }
        Ok(self)
    }
    pub fn transaction_fee_input(&self) -> Result<(U256, Option<U256>), E> {
        let t = &self.transaction;
        match (t.gas_price, t.max_fee_per_gas, t.max_priority_fee_per_gas) {
            (Some(p), None, None) => Ok((p, Some(p))),
            (None, Some(max), None) => Ok((max, Some(self.config.base_fee))),
            (None, Some(max), Some(tip)) => { if tip > max { return Err(TransactionValidationError::PriorityFeeTooHigh.into()) } Ok((max, Some(self.config.base_fee.checked_add(tip).unwrap_or(U256::MAX).min(max)))) }
            _ => if self.config.is_transactional { Err(TransactionValidationError::InvalidFeeInput.into()) } else { Ok((U256::zero(), None)) },
        }
    }
    /// the gas of the transaction itself is left to the interpreter's stand-in; the block's gas is a limit here
    fn validate_common(&self) -> Result<&Self, E> {
        if self.transaction.gas_limit < U256::from(21_000u64) && self.config.is_transactional { return Err(TransactionValidationError::GasLimitTooLow.into()) }
        if self.config.is_transactional && self.transaction.gas_limit > self.config.block_gas_limit { return Err(TransactionValidationError::GasLimitTooHigh.into()) }
        Ok(self)
    }
}
