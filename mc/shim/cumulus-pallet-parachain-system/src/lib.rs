pub trait OnSystemEvent {
    fn on_validation_data(data: &cumulus_primitives_core::PersistedValidationData);
    fn on_validation_code_applied();
}
impl OnSystemEvent for () { fn on_validation_data(_: &cumulus_primitives_core::PersistedValidationData) {} fn on_validation_code_applied() {} }
/// The relay chain's data of the block, if the block has any.
pub trait Config: frame_system::Config {}
pub struct Pallet<T>(core::marker::PhantomData<T>);
impl<T: Config> Pallet<T> {
    pub fn validation_data() -> Option<cumulus_primitives_core::PersistedValidationData> { frame_support::storage::unhashed::get(b":validation_data") }
    pub fn set_validation_data(d: Option<cumulus_primitives_core::PersistedValidationData>) { match d { Some(d) => frame_support::storage::unhashed::put(b":validation_data", &d), None => frame_support::storage::unhashed::kill(b":validation_data") } }
}
