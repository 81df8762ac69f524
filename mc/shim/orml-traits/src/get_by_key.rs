pub trait GetByKey<Key, Value> { fn get(k: &Key) -> Value; }
impl<Key, Value: Default> GetByKey<Key, Value> for () { fn get(_: &Key) -> Value { Value::default() } }
#[macro_export]
macro_rules! parameter_type_with_key {
    ( pub $name:ident: |$k:ident: $key:ty| -> $value:ty $body:block; ) => {
        pub struct $name;
        impl $crate::get_by_key::GetByKey<$key, $value> for $name {
            #[allow(unused_variables)]
            fn get($k: &$key) -> $value { $body }
        }
    };
}
