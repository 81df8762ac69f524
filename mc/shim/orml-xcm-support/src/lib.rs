use polkadot_xcm::v4::{prelude::*, Error};
use sp_runtime::{DispatchError, DispatchResult};
pub trait UnknownAsset { fn deposit(asset: &Asset, to: &Location) -> DispatchResult; fn withdraw(asset: &Asset, from: &Location) -> DispatchResult; }
impl UnknownAsset for () {
    fn deposit(_: &Asset, _: &Location) -> DispatchResult { Err(DispatchError::Other("NoUnknownAssetImpl")) }
    fn withdraw(_: &Asset, _: &Location) -> DispatchResult { Err(DispatchError::Other("NoUnknownAssetImpl")) }
}
pub trait OnDepositFail<CurrencyId, AccountId, Balance> {
    fn on_deposit_unknown_asset_fail(err: DispatchError, asset: &Asset, location: &Location) -> Result<(), Error>;
    fn on_deposit_currency_fail(err: DispatchError, currency_id: CurrencyId, who: &AccountId, amount: Balance) -> Result<(), Error>;
}
impl<C, A, B> OnDepositFail<C, A, B> for () {
    fn on_deposit_unknown_asset_fail(err: DispatchError, _: &Asset, _: &Location) -> Result<(), Error> { Err(Error::FailedToTransactAsset(err.into())) }
    fn on_deposit_currency_fail(err: DispatchError, _: C, _: &A, _: B) -> Result<(), Error> { Err(Error::FailedToTransactAsset(err.into())) }
}
