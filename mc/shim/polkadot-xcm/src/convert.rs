use super::*;
impl<C> TryFrom<v2::Xcm<C>> for v3::Xcm<C> {
    type Error = ();
    fn try_from(x: v2::Xcm<C>) -> Result<Self, ()> {
        use v2::Instruction as O; use v3::Instruction as N;
        Ok(Self(x.0.into_iter().map(|i| Ok(match i {
            O::WithdrawAsset(a) => N::WithdrawAsset(a), O::ReserveAssetDeposited(a) => N::ReserveAssetDeposited(a), O::ReceiveTeleportedAsset(a) => N::ReceiveTeleportedAsset(a), O::ClearOrigin => N::ClearOrigin,
            // a key of more than 32 bytes has no place in version 3
            O::DescendOrigin(k) if k.len() <= 32 => N::ClearOrigin,
            _ => return Err(()),
        })).collect::<Result<_, ()>>()?))
    }
}
impl TryFrom<v4::Asset> for v3::MultiAsset {
    type Error = ();
    fn try_from(a: v4::Asset) -> Result<Self, ()> {
        let l = a.id.0;
        Ok(v3::MultiAsset { id: v3::AssetId::Concrete(v3::MultiLocation { parents: l.parents, interior: v3::Junctions::of(&l.interior.list()).ok_or(())? }),
            fun: match a.fun { v4::Fungibility::Fungible(n) => v3::Fungibility::Fungible(n), v4::Fungibility::NonFungible(i) => v3::Fungibility::NonFungible(i) } })
    }
}
impl TryFrom<v4::Assets> for v3::MultiAssets {
    type Error = ();
    fn try_from(a: v4::Assets) -> Result<Self, ()> { Ok(a.into_inner().into_iter().map(v3::MultiAsset::try_from).collect::<Result<Vec<_>, _>>()?.into()) }
}
impl<C> TryFrom<v4::Xcm<C>> for v3::Xcm<C> {
    type Error = ();
    fn try_from(x: v4::Xcm<C>) -> Result<Self, ()> {
        use v3::Instruction as N; use v4::Instruction as O;
        Ok(Self(x.0.into_iter().map(|i| Ok(match i {
            O::WithdrawAsset(a) => N::WithdrawAsset(a.try_into()?), O::ReserveAssetDeposited(a) => N::ReserveAssetDeposited(a.try_into()?), O::ReceiveTeleportedAsset(a) => N::ReceiveTeleportedAsset(a.try_into()?),
            O::ClearOrigin => N::ClearOrigin, O::RefundSurplus => N::RefundSurplus, O::SetTopic(t) => N::SetTopic(t), O::Trap(t) => N::Trap(t), O::BuyExecution { fees, weight_limit } => N::BuyExecution { fees: fees.try_into()?, weight_limit },
            _ => return Err(()),
        })).collect::<Result<_, ()>>()?))
    }
}
