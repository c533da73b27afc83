// Models of the consensus types the core crate takes from its dependencies.
verus! {
// ---- 32-byte values ----
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub struct B256 { pub w0: u64, pub w1: u64, pub w2: u64, pub w3: u64 }
pub type Root = B256;
pub uninterp spec fn bytes_of(b: B256) -> Seq<u8>;
pub uninterp spec fn b256_of(s: Seq<u8>) -> B256;
#[verifier::external_body]
pub broadcast proof fn axiom_b256(b: B256) ensures (#[trigger] bytes_of(b)).len() == 32, b256_of(bytes_of(b)) == b {}
#[verifier::external_body]
pub broadcast proof fn axiom_b256_inv(s: Seq<u8>) requires s.len() == 32 ensures bytes_of(#[trigger] b256_of(s)) == s {}

// ---- numbers: checked arithmetic (safe_arith) and the saturating operators of Slot and Epoch ----
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum ArithError { Overflow, DivisionByZero }
pub trait Num: Sized { spec fn num(self) -> int; spec fn of(x: int) -> Self; spec fn top() -> int; }
pub open spec fn chk<T: Num>(x: int) -> core::result::Result<T, ArithError> { if 0 <= x <= T::top() { Ok(T::of(x)) } else { Err(ArithError::Overflow) } }
pub trait SafeArith<Rhs: Num>: Num {
    fn safe_add(&self, o: Rhs) -> (r: core::result::Result<Self, ArithError>) ensures r == chk::<Self>(self.num() + o.num());
    fn safe_sub(&self, o: Rhs) -> (r: core::result::Result<Self, ArithError>) ensures r == chk::<Self>(self.num() - o.num());
    fn safe_mul(&self, o: Rhs) -> (r: core::result::Result<Self, ArithError>) ensures r == chk::<Self>(self.num() * o.num());
    fn safe_div(&self, o: Rhs) -> (r: core::result::Result<Self, ArithError>) ensures r == if o.num() == 0 { Err::<Self, ArithError>(ArithError::DivisionByZero) } else { chk::<Self>(self.num() / o.num()) };
    fn safe_rem(&self, o: Rhs) -> (r: core::result::Result<Self, ArithError>) ensures r == if o.num() == 0 { Err::<Self, ArithError>(ArithError::DivisionByZero) } else { chk::<Self>(self.num() % o.num()) };
}
impl Num for u64 { open spec fn num(self) -> int { self as int } open spec fn of(x: int) -> Self { x as u64 } open spec fn top() -> int { u64::MAX as int } }
impl Num for usize { open spec fn num(self) -> int { self as int } open spec fn of(x: int) -> Self { x as usize } open spec fn top() -> int { usize::MAX as int } }
impl SafeArith<u64> for u64 {
    #[verifier::external_body]
    fn safe_add(&self, o: u64) -> core::result::Result<u64, ArithError> { unimplemented!() }
    #[verifier::external_body]
    fn safe_sub(&self, o: u64) -> core::result::Result<u64, ArithError> { unimplemented!() }
    #[verifier::external_body]
    fn safe_mul(&self, o: u64) -> core::result::Result<u64, ArithError> { unimplemented!() }
    #[verifier::external_body]
    fn safe_div(&self, o: u64) -> core::result::Result<u64, ArithError> { unimplemented!() }
    #[verifier::external_body]
    fn safe_rem(&self, o: u64) -> core::result::Result<u64, ArithError> { unimplemented!() }
}
impl SafeArith<usize> for usize {
    #[verifier::external_body]
    fn safe_add(&self, o: usize) -> core::result::Result<usize, ArithError> { unimplemented!() }
    #[verifier::external_body]
    fn safe_sub(&self, o: usize) -> core::result::Result<usize, ArithError> { unimplemented!() }
    #[verifier::external_body]
    fn safe_mul(&self, o: usize) -> core::result::Result<usize, ArithError> { unimplemented!() }
    #[verifier::external_body]
    fn safe_div(&self, o: usize) -> core::result::Result<usize, ArithError> { unimplemented!() }
    #[verifier::external_body]
    fn safe_rem(&self, o: usize) -> core::result::Result<usize, ArithError> { unimplemented!() }
}
pub open spec fn sat(x: int) -> u64 { if x < 0 { 0 } else if x > u64::MAX { u64::MAX } else { x as u64 } }
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub struct Epoch { pub v: u64 }
impl Num for Epoch { open spec fn num(self) -> int { self.v as int } open spec fn of(x: int) -> Self { Epoch { v: x as u64 } } open spec fn top() -> int { u64::MAX as int } }
impl SafeArith<u64> for Epoch {
    #[verifier::external_body]
    fn safe_add(&self, o: u64) -> core::result::Result<Epoch, ArithError> { unimplemented!() }
    #[verifier::external_body]
    fn safe_sub(&self, o: u64) -> core::result::Result<Epoch, ArithError> { unimplemented!() }
    #[verifier::external_body]
    fn safe_mul(&self, o: u64) -> core::result::Result<Epoch, ArithError> { unimplemented!() }
    #[verifier::external_body]
    fn safe_div(&self, o: u64) -> core::result::Result<Epoch, ArithError> { unimplemented!() }
    #[verifier::external_body]
    fn safe_rem(&self, o: u64) -> core::result::Result<Epoch, ArithError> { unimplemented!() }
}
impl SafeArith<Epoch> for Epoch {
    #[verifier::external_body]
    fn safe_add(&self, o: Epoch) -> core::result::Result<Epoch, ArithError> { unimplemented!() }
    #[verifier::external_body]
    fn safe_sub(&self, o: Epoch) -> core::result::Result<Epoch, ArithError> { unimplemented!() }
    #[verifier::external_body]
    fn safe_mul(&self, o: Epoch) -> core::result::Result<Epoch, ArithError> { unimplemented!() }
    #[verifier::external_body]
    fn safe_div(&self, o: Epoch) -> core::result::Result<Epoch, ArithError> { unimplemented!() }
    #[verifier::external_body]
    fn safe_rem(&self, o: Epoch) -> core::result::Result<Epoch, ArithError> { unimplemented!() }
}
pub open spec fn epoch_cmp(a: u64, b: u64) -> Option<Ordering> { if a < b { Some(Ordering::Less) } else if a == b { Some(Ordering::Equal) } else { Some(Ordering::Greater) } }
impl PartialOrd for Epoch {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Epoch) -> Option<Ordering> { unimplemented!() }
    #[verifier::external_body]
    fn lt(&self, o: &Epoch) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn le(&self, o: &Epoch) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn gt(&self, o: &Epoch) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn ge(&self, o: &Epoch) -> bool { unimplemented!() }
}
impl PartialOrdSpecImpl for Epoch {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Epoch) -> Option<Ordering> { epoch_cmp(self.v, o.v) }
}
impl PartialEq<u64> for Epoch {
    #[verifier::external_body]
    fn eq(&self, o: &u64) -> bool { unimplemented!() }
}
impl PartialEqSpecImpl<u64> for Epoch {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &u64) -> bool { self.v == *o }
}
impl PartialOrd<u64> for Epoch {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &u64) -> Option<Ordering> { unimplemented!() }
    #[verifier::external_body]
    fn lt(&self, o: &u64) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn le(&self, o: &u64) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn gt(&self, o: &u64) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn ge(&self, o: &u64) -> bool { unimplemented!() }
}
impl PartialOrdSpecImpl<u64> for Epoch {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &u64) -> Option<Ordering> { epoch_cmp(self.v, *o) }
}
impl core::ops::Add<Epoch> for Epoch {
    type Output = Epoch;
    #[verifier::external_body]
    fn add(self, o: Epoch) -> Epoch { unimplemented!() }
}
impl AddSpecImpl<Epoch> for Epoch {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Epoch) -> bool { true }
    open spec fn add_spec(self, o: Epoch) -> Epoch { Epoch { v: sat(self.v + o.v) } }
}
impl core::ops::Add<u64> for Epoch {
    type Output = Epoch;
    #[verifier::external_body]
    fn add(self, o: u64) -> Epoch { unimplemented!() }
}
impl AddSpecImpl<u64> for Epoch {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: u64) -> bool { true }
    open spec fn add_spec(self, o: u64) -> Epoch { Epoch { v: sat(self.v + o) } }
}
impl core::ops::Sub<Epoch> for Epoch {
    type Output = Epoch;
    #[verifier::external_body]
    fn sub(self, o: Epoch) -> Epoch { unimplemented!() }
}
impl SubSpecImpl<Epoch> for Epoch {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Epoch) -> bool { true }
    open spec fn sub_spec(self, o: Epoch) -> Epoch { Epoch { v: sat(self.v - o.v) } }
}
impl core::ops::Sub<u64> for Epoch {
    type Output = Epoch;
    #[verifier::external_body]
    fn sub(self, o: u64) -> Epoch { unimplemented!() }
}
impl SubSpecImpl<u64> for Epoch {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: u64) -> bool { true }
    open spec fn sub_spec(self, o: u64) -> Epoch { Epoch { v: sat(self.v - o) } }
}
impl core::ops::Mul<u64> for Epoch {
    type Output = Epoch;
    #[verifier::external_body]
    fn mul(self, o: u64) -> Epoch { unimplemented!() }
}
impl MulSpecImpl<u64> for Epoch {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: u64) -> bool { true }
    open spec fn mul_spec(self, o: u64) -> Epoch { Epoch { v: sat(self.v * o) } }
}
impl Epoch {
    #[verifier::external_body]
    pub fn start_slot(self, slots_per_epoch: u64) -> (r: Slot) ensures r.v == sat(self.v * slots_per_epoch) { unimplemented!() }
    pub const fn new(x: u64) -> (r: Epoch) ensures r.v == x { Epoch { v: x } }
    pub fn as_u64(self) -> (r: u64) ensures r == self.v { self.v }
    #[verifier::external_body]
    pub fn as_usize(self) -> (r: usize) ensures self.v <= usize::MAX ==> r == self.v { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_sub(&self, o: Epoch) -> (r: Epoch) ensures r.v == sat(self.v - o.v) { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_add(&self, o: Epoch) -> (r: Epoch) ensures r.v == sat(self.v + o.v) { unimplemented!() }
}
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub struct Slot { pub v: u64 }
impl Num for Slot { open spec fn num(self) -> int { self.v as int } open spec fn of(x: int) -> Self { Slot { v: x as u64 } } open spec fn top() -> int { u64::MAX as int } }
impl SafeArith<u64> for Slot {
    #[verifier::external_body]
    fn safe_add(&self, o: u64) -> core::result::Result<Slot, ArithError> { unimplemented!() }
    #[verifier::external_body]
    fn safe_sub(&self, o: u64) -> core::result::Result<Slot, ArithError> { unimplemented!() }
    #[verifier::external_body]
    fn safe_mul(&self, o: u64) -> core::result::Result<Slot, ArithError> { unimplemented!() }
    #[verifier::external_body]
    fn safe_div(&self, o: u64) -> core::result::Result<Slot, ArithError> { unimplemented!() }
    #[verifier::external_body]
    fn safe_rem(&self, o: u64) -> core::result::Result<Slot, ArithError> { unimplemented!() }
}
impl SafeArith<Slot> for Slot {
    #[verifier::external_body]
    fn safe_add(&self, o: Slot) -> core::result::Result<Slot, ArithError> { unimplemented!() }
    #[verifier::external_body]
    fn safe_sub(&self, o: Slot) -> core::result::Result<Slot, ArithError> { unimplemented!() }
    #[verifier::external_body]
    fn safe_mul(&self, o: Slot) -> core::result::Result<Slot, ArithError> { unimplemented!() }
    #[verifier::external_body]
    fn safe_div(&self, o: Slot) -> core::result::Result<Slot, ArithError> { unimplemented!() }
    #[verifier::external_body]
    fn safe_rem(&self, o: Slot) -> core::result::Result<Slot, ArithError> { unimplemented!() }
}
pub open spec fn slot_cmp(a: u64, b: u64) -> Option<Ordering> { if a < b { Some(Ordering::Less) } else if a == b { Some(Ordering::Equal) } else { Some(Ordering::Greater) } }
impl PartialOrd for Slot {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Slot) -> Option<Ordering> { unimplemented!() }
    #[verifier::external_body]
    fn lt(&self, o: &Slot) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn le(&self, o: &Slot) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn gt(&self, o: &Slot) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn ge(&self, o: &Slot) -> bool { unimplemented!() }
}
impl PartialOrdSpecImpl for Slot {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Slot) -> Option<Ordering> { slot_cmp(self.v, o.v) }
}
impl PartialEq<u64> for Slot {
    #[verifier::external_body]
    fn eq(&self, o: &u64) -> bool { unimplemented!() }
}
impl PartialEqSpecImpl<u64> for Slot {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &u64) -> bool { self.v == *o }
}
impl PartialOrd<u64> for Slot {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &u64) -> Option<Ordering> { unimplemented!() }
    #[verifier::external_body]
    fn lt(&self, o: &u64) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn le(&self, o: &u64) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn gt(&self, o: &u64) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn ge(&self, o: &u64) -> bool { unimplemented!() }
}
impl PartialOrdSpecImpl<u64> for Slot {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &u64) -> Option<Ordering> { slot_cmp(self.v, *o) }
}
impl core::ops::Add<Slot> for Slot {
    type Output = Slot;
    #[verifier::external_body]
    fn add(self, o: Slot) -> Slot { unimplemented!() }
}
impl AddSpecImpl<Slot> for Slot {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Slot) -> bool { true }
    open spec fn add_spec(self, o: Slot) -> Slot { Slot { v: sat(self.v + o.v) } }
}
impl core::ops::Add<u64> for Slot {
    type Output = Slot;
    #[verifier::external_body]
    fn add(self, o: u64) -> Slot { unimplemented!() }
}
impl AddSpecImpl<u64> for Slot {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: u64) -> bool { true }
    open spec fn add_spec(self, o: u64) -> Slot { Slot { v: sat(self.v + o) } }
}
impl core::ops::Sub<Slot> for Slot {
    type Output = Slot;
    #[verifier::external_body]
    fn sub(self, o: Slot) -> Slot { unimplemented!() }
}
impl SubSpecImpl<Slot> for Slot {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Slot) -> bool { true }
    open spec fn sub_spec(self, o: Slot) -> Slot { Slot { v: sat(self.v - o.v) } }
}
impl core::ops::Sub<u64> for Slot {
    type Output = Slot;
    #[verifier::external_body]
    fn sub(self, o: u64) -> Slot { unimplemented!() }
}
impl SubSpecImpl<u64> for Slot {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: u64) -> bool { true }
    open spec fn sub_spec(self, o: u64) -> Slot { Slot { v: sat(self.v - o) } }
}
impl Slot {
    pub const fn new(x: u64) -> (r: Slot) ensures r.v == x { Slot { v: x } }
    pub fn as_u64(self) -> (r: u64) ensures r == self.v { self.v }
    #[verifier::external_body]
    pub fn as_usize(self) -> (r: usize) ensures self.v <= usize::MAX ==> r == self.v { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_sub(&self, o: Slot) -> (r: Slot) ensures r.v == sat(self.v - o.v) { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_add(&self, o: Slot) -> (r: Slot) ensures r.v == sat(self.v + o.v) { unimplemented!() }
}
impl Slot {
    #[verifier::external_body]
    pub fn epoch(self, slots_per_epoch: u64) -> (r: Epoch)
        requires slots_per_epoch > 0,
        ensures r.v == self.v / slots_per_epoch,
    { unimplemented!() }
}
pub mod alloy_primitives { pub use super::B256; }

// ---- conversions ----
pub trait VFrom<T>: Sized {
    spec fn from_spec(t: T) -> Self;
    fn vfrom(t: T) -> (r: Self) ensures r == Self::from_spec(t);
}
pub trait VInto<U>: Sized {
    spec fn into_spec(self) -> U;
    fn vf_into(self) -> (r: U) ensures r == self.into_spec();
}
impl<T, U: VFrom<T>> VInto<U> for T {
    open spec fn into_spec(self) -> U { U::from_spec(self) }
    fn vf_into(self) -> (r: U) { let r = U::vfrom(self); assert(r == <U as VFrom<T>>::from_spec(self)); assert(<T as VInto<U>>::into_spec(self) == <U as VFrom<T>>::from_spec(self)); r }
}
impl VFrom<u64> for Epoch { open spec fn from_spec(t: u64) -> Self { Epoch { v: t } } fn vfrom(t: u64) -> (r: Self) { Epoch { v: t } } }
impl VFrom<u64> for Slot { open spec fn from_spec(t: u64) -> Self { Slot { v: t } } fn vfrom(t: u64) -> (r: Self) { Slot { v: t } } }
impl VFrom<Epoch> for u64 { open spec fn from_spec(t: Epoch) -> u64 { t.v } fn vfrom(t: Epoch) -> (r: u64) { t.v } }
pub trait VToString { fn vf_to_string(&self) -> String; }
impl<T> VToString for T {
    #[verifier::external_body]
    fn vf_to_string(&self) -> String { unimplemented!() }
}
#[verifier::external_body]
pub fn vf_string() -> String { unimplemented!() }
} // verus!
