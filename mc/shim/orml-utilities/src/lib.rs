//! Stand-in for orml-utilities.
use frame_support::storage::{with_transaction, TransactionOutcome};
use sp_runtime::DispatchError;
pub fn with_transaction_result<R>(f: impl FnOnce() -> Result<R, DispatchError>) -> Result<R, DispatchError> {
    with_transaction(|| { let r = f(); match r { Ok(_) => TransactionOutcome::Commit(r), Err(_) => TransactionOutcome::Rollback(r) } })
}
