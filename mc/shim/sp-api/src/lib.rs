#[macro_export] macro_rules! decl_runtime_apis { ($($t:tt)*) => {}; }
