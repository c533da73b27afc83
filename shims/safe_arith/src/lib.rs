//! Stand-in for lighthouse's `safe_arith`: checked arithmetic that reports errors.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ArithError {
    Overflow,
    DivisionByZero,
}
pub type Result<T> = core::result::Result<T, ArithError>;

pub trait SafeArith<Rhs = Self>: Sized + Copy {
    const ZERO: Self;
    const ONE: Self;
    fn safe_add(&self, other: Rhs) -> Result<Self>;
    fn safe_sub(&self, other: Rhs) -> Result<Self>;
    fn safe_mul(&self, other: Rhs) -> Result<Self>;
    fn safe_div(&self, other: Rhs) -> Result<Self>;
    fn safe_rem(&self, other: Rhs) -> Result<Self>;
    fn safe_add_assign(&mut self, other: Rhs) -> Result<()> {
        *self = self.safe_add(other)?;
        Ok(())
    }
    fn safe_sub_assign(&mut self, other: Rhs) -> Result<()> {
        *self = self.safe_sub(other)?;
        Ok(())
    }
}
macro_rules! imp { ($($t:ty)*) => {$(
    impl SafeArith for $t {
        const ZERO: Self = 0;
        const ONE: Self = 1;
        fn safe_add(&self, o: Self) -> Result<Self> { self.checked_add(o).ok_or(ArithError::Overflow) }
        fn safe_sub(&self, o: Self) -> Result<Self> { self.checked_sub(o).ok_or(ArithError::Overflow) }
        fn safe_mul(&self, o: Self) -> Result<Self> { self.checked_mul(o).ok_or(ArithError::Overflow) }
        fn safe_div(&self, o: Self) -> Result<Self> { self.checked_div(o).ok_or(ArithError::DivisionByZero) }
        fn safe_rem(&self, o: Self) -> Result<Self> { self.checked_rem(o).ok_or(ArithError::DivisionByZero) }
    }
)*}}
imp!(u8 u16 u32 u64 u128 usize);
