pub trait TakeRevenue { fn take_revenue(revenue: polkadot_xcm::v4::Asset); }
impl TakeRevenue for () { fn take_revenue(_: polkadot_xcm::v4::Asset) {} }
