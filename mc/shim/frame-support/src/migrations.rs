pub struct RemovePallet<P, W>(std::marker::PhantomData<(P, W)>);
pub struct VersionedMigration<const FROM: u16, const TO: u16, Inner, Pallet, Weight>(std::marker::PhantomData<(Inner, Pallet, Weight)>);
