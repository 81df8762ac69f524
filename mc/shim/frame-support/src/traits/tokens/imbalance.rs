use sp_arithmetic::traits::Zero;
use std::marker::PhantomData;
pub trait TryDrop: Sized { fn try_drop(self) -> Result<(), Self>; }
impl TryDrop for () { fn try_drop(self) -> Result<(), ()> { Ok(()) } }
pub enum SameOrOther<A, B> { None, Same(A), Other(B) }
impl<A, B> SameOrOther<A, B> {
    pub fn same(self) -> Result<A, B> where A: Default { match self { Self::Same(a) => Ok(a), Self::None => Ok(A::default()), Self::Other(b) => Err(b) } }
    pub fn other(self) -> Result<B, A> where B: Default { match self { Self::Same(a) => Err(a), Self::None => Ok(B::default()), Self::Other(b) => Ok(b) } }
    pub fn try_other(self) -> Result<B, Self> { match self { Self::Other(b) => Ok(b), x => Err(x) } }
}
impl<A: TryDrop, B: TryDrop> TryDrop for SameOrOther<A, B> { fn try_drop(self) -> Result<(), Self> { match self { Self::Same(x) => x.try_drop().map_err(Self::Same), Self::Other(x) => x.try_drop().map_err(Self::Other), Self::None => Ok(()) } } }
pub trait Imbalance<Balance>: Sized + TryDrop + Default {
    type Opposite: Imbalance<Balance>;
    fn zero() -> Self;
    fn drop_zero(self) -> Result<(), Self>;
    fn split(self, amount: Balance) -> (Self, Self);
    fn merge(self, other: Self) -> Self;
    fn subsume(&mut self, other: Self);
    fn maybe_merge(self, other: Option<Self>) -> Self { match other { Some(x) => self.merge(x), None => self } }
    fn maybe_subsume(&mut self, other: Option<Self>) { if let Some(o) = other { self.subsume(o) } }
    fn offset(self, other: Self::Opposite) -> SameOrOther<Self, Self::Opposite>;
    fn peek(&self) -> Balance;
    fn ration(self, first: u32, second: u32) -> (Self, Self) where Balance: From<u32> + sp_arithmetic::traits::Saturating + std::ops::Div<Output = Balance> {
        let total: u32 = first.saturating_add(second);
        if total == 0 { return (Self::zero(), Self::zero()); }
        let a1 = self.peek().saturating_mul(first.into()) / total.into();
        self.split(a1)
    }
}
pub trait OnUnbalanced<I: TryDrop> {
    fn on_unbalanceds<B>(amounts: impl Iterator<Item = I>) where I: Imbalance<B> { Self::on_unbalanced(amounts.fold(I::zero(), |i, x| x.merge(i))) }
    fn on_unbalanced(amount: I) { amount.try_drop().unwrap_or_else(Self::on_nonzero_unbalanced) }
    fn on_nonzero_unbalanced(amount: I) { drop(amount); }
}
impl<I: TryDrop> OnUnbalanced<I> for () {}
pub enum SignedImbalance<B, PositiveImbalance: Imbalance<B>> {
    Positive(PositiveImbalance),
    Negative(PositiveImbalance::Opposite),
    #[allow(dead_code)]
    #[doc(hidden)]
    __P(PhantomData<B>, std::convert::Infallible),
}
impl<B: Zero, P: Imbalance<B>> SignedImbalance<B, P> { pub fn zero() -> Self { Self::Positive(P::zero()) } }
