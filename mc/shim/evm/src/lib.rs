//! The types of the EVM which precompiles exchange with it.
use primitive_types::{H160, H256, U256};
use std::borrow::Cow;
pub mod backend {
    #[derive(Clone, Debug, Default, PartialEq, Eq)]
    pub struct Basic { pub balance: primitive_types::U256, pub nonce: primitive_types::U256 }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Log { pub address: super::H160, pub topics: Vec<super::H256>, pub data: Vec<u8> }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ExitReason { Succeed(ExitSucceed), Error(ExitError), Revert(ExitRevert), Fatal(ExitFatal) }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ExitSucceed { Stopped, Returned, Suicided }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ExitRevert { Reverted }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ExitError { StackUnderflow, StackOverflow, InvalidJump, InvalidRange, DesignatedInvalid, CallTooDeep, CreateCollision, CreateContractLimit, OutOfOffset, OutOfGas, OutOfFund, PCUnderflow, CreateEmpty, Other(Cow<'static, str>), MaxNonce, InvalidCode(u8) }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ExitFatal { NotSupported, UnhandledInterrupt, CallErrorAsFatal(ExitError), Other(Cow<'static, str>) }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Context { pub address: H160, pub caller: H160, pub apparent_value: U256 }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Transfer { pub source: H160, pub target: H160, pub value: U256 }
/// what costs are computed from
#[derive(Clone, Debug)]
pub struct Config { pub increase_state_access_gas: bool, pub gas_account_access_cold: u64, pub gas_storage_read_warm: u64, pub gas_call: u64, pub empty_considered_exists: bool }
impl Config {
    pub const fn london() -> Self { Config { increase_state_access_gas: true, gas_account_access_cold: 2600, gas_storage_read_warm: 100, gas_call: 0, empty_considered_exists: false } }
    pub const fn frontier() -> Self { Config { increase_state_access_gas: false, gas_account_access_cold: 0, gas_storage_read_warm: 0, gas_call: 40, empty_considered_exists: true } }
}
