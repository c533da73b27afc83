// Machine arithmetic of a release build: wrapping on u64, saturating on Epoch.
verus! {
pub trait VWrap: Sized {
    spec fn wsub_s(a: Self, b: Self) -> Self; spec fn wadd_s(a: Self, b: Self) -> Self; spec fn wmul_s(a: Self, b: Self) -> Self;
    fn wsub(a: Self, b: Self) -> (r: Self) ensures r == Self::wsub_s(a, b);
    fn wadd(a: Self, b: Self) -> (r: Self) ensures r == Self::wadd_s(a, b);
    fn wmul(a: Self, b: Self) -> (r: Self) ensures r == Self::wmul_s(a, b);
}
pub open spec fn wrap(x: int) -> u64 { (x % 0x1_0000_0000_0000_0000) as u64 }
impl VWrap for u64 {
    open spec fn wsub_s(a: u64, b: u64) -> u64 { wrap(a - b) } open spec fn wadd_s(a: u64, b: u64) -> u64 { wrap(a + b) } open spec fn wmul_s(a: u64, b: u64) -> u64 { wrap(a * b) }
    #[verifier::external_body]
    fn wsub(a: u64, b: u64) -> u64 { unimplemented!() }
    #[verifier::external_body]
    fn wadd(a: u64, b: u64) -> u64 { unimplemented!() }
    #[verifier::external_body]
    fn wmul(a: u64, b: u64) -> u64 { unimplemented!() }
}
impl VWrap for Epoch {
    open spec fn wsub_s(a: Epoch, b: Epoch) -> Epoch { Epoch { v: sat(a.v - b.v) } } open spec fn wadd_s(a: Epoch, b: Epoch) -> Epoch { Epoch { v: sat(a.v + b.v) } } open spec fn wmul_s(a: Epoch, b: Epoch) -> Epoch { Epoch { v: sat(a.v * b.v) } }
    #[verifier::external_body]
    fn wsub(a: Epoch, b: Epoch) -> Epoch { unimplemented!() }
    #[verifier::external_body]
    fn wadd(a: Epoch, b: Epoch) -> Epoch { unimplemented!() }
    #[verifier::external_body]
    fn wmul(a: Epoch, b: Epoch) -> Epoch { unimplemented!() }
}
pub fn vf_sub<T: VWrap>(a: T, b: T) -> (r: T) ensures r == T::wsub_s(a, b) { T::wsub(a, b) }
pub fn vf_add<T: VWrap>(a: T, b: T) -> (r: T) ensures r == T::wadd_s(a, b) { T::wadd(a, b) }
pub fn vf_mul<T: VWrap>(a: T, b: T) -> (r: T) ensures r == T::wmul_s(a, b) { T::wmul(a, b) }
#[verifier::external_body]
pub fn vf_add_assign<T: VWrap>(a: &mut T, b: T) ensures *final(a) == T::wadd_s(*old(a), b) { unimplemented!() }
#[verifier::external_body]
pub fn vf_sub_assign<T: VWrap>(a: &mut T, b: T) ensures *final(a) == T::wsub_s(*old(a), b) { unimplemented!() }
/// wrapping never yields more than the true value
pub proof fn wrap_le(x: int) requires x >= 0 ensures wrap(x) <= x, x <= u64::MAX ==> wrap(x) == x {}
} // verus!
