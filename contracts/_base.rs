// Shared models. Everything marked external_body here is assumed: it stands for a function of std or of a
// dependency, described by its documentation.
#![verifier::loop_isolation(false)]
#![verifier::allow_complex_invariants]
#[allow(unused_imports)]
use vstd::prelude::*;
#[allow(unused_imports)]
use vstd::std_specs::iter::*;
#[allow(unused_imports)]
use vstd::std_specs::cmp::*;
#[allow(unused_imports)]
use vstd::std_specs::ops::*;
#[allow(unused_imports)]
use core::cmp::Ordering;
#[allow(unused_imports)]
use core::ops::Range;
verus! {

// ---- rejections: a panic is allowed exactly where `reject` holds ----
#[verifier::external_body]
pub fn vf_assert(c: bool, Ghost(reject): Ghost<bool>)
    requires reject || c,
    ensures c,
{ assert!(c) }
#[verifier::external_body]
pub fn vf_panic<T>(Ghost(reject): Ghost<bool>) -> (r: T)
    requires reject,
    ensures false,
{ panic!() }
pub trait VfUnwrap: Sized {
    type T;
    spec fn vf_has(self) -> bool;
    spec fn vf_get(self) -> Self::T;
    fn vf_unwrap(self, Ghost(reject): Ghost<bool>) -> (r: Self::T)
        requires reject || self.vf_has(),
        ensures self.vf_has(), r == self.vf_get();
}
impl<T> VfUnwrap for Option<T> {
    type T = T;
    open spec fn vf_has(self) -> bool { self is Some }
    open spec fn vf_get(self) -> T { self->0 }
    #[verifier::external_body]
    fn vf_unwrap(self, Ghost(reject): Ghost<bool>) -> (r: T) { self.unwrap() }
}
impl<T, E> VfUnwrap for core::result::Result<T, E> {
    type T = T;
    open spec fn vf_has(self) -> bool { self is Ok }
    open spec fn vf_get(self) -> T { self->Ok_0 }
    #[verifier::external_body]
    fn vf_unwrap(self, Ghost(reject): Ghost<bool>) -> (r: T) { unimplemented!() }
}
pub trait VfSlice { type T; spec fn vf_seq(&self) -> Seq<Self::T>; }
impl<T> VfSlice for [T] { type T = T; open spec fn vf_seq(&self) -> Seq<T> { self@ } }
impl<T, const N: usize> VfSlice for [T; N] { type T = T; open spec fn vf_seq(&self) -> Seq<T> { self@ } }
impl<T> VfSlice for Vec<T> { type T = T; open spec fn vf_seq(&self) -> Seq<T> { self@ } }
impl<S: VfSlice + ?Sized> VfSlice for &S { type T = S::T; open spec fn vf_seq(&self) -> Seq<S::T> { (**self).vf_seq() } }
#[verifier::external_body]
pub fn vf_range<'a, S: VfSlice + ?Sized>(s: &'a S, a: Option<usize>, b: Option<usize>, Ghost(reject): Ghost<bool>) -> (r: &'a [S::T])
    requires reject || (match a { Some(x) => x as int, None => 0 }) <= (match b { Some(x) => x as int, None => s.vf_seq().len() as int }) <= s.vf_seq().len(),
    ensures
        0 <= (match a { Some(x) => x as int, None => 0 }) <= (match b { Some(x) => x as int, None => s.vf_seq().len() as int }) <= s.vf_seq().len(),
        r@ == s.vf_seq().subrange(match a { Some(x) => x as int, None => 0 }, match b { Some(x) => x as int, None => s.vf_seq().len() as int }),
{ unimplemented!() }

/// a usize local whose type the ghost text cannot infer
pub open spec fn us(x: usize) -> int { x as int }
pub open spec fn u64i(x: u64) -> int { x as int }

pub broadcast proof fn lemma_empty_add<A>(a: Seq<A>)
    ensures #[trigger] (Seq::<A>::empty() + a) == a,
{ assert(Seq::<A>::empty() + a =~= a); }

// ---- SHA-256 ----
pub uninterp spec fn sha256(b: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub broadcast proof fn axiom_sha256_len(b: Seq<u8>) ensures (#[trigger] sha256(b)).len() == 32 {}
pub trait VBytes { spec fn vbytes(&self) -> Seq<u8>; }
impl VBytes for &[u8] { open spec fn vbytes(&self) -> Seq<u8> { self@ } }
impl<const N: usize> VBytes for [u8; N] { open spec fn vbytes(&self) -> Seq<u8> { self@ } }
impl<const N: usize> VBytes for &[u8; N] { open spec fn vbytes(&self) -> Seq<u8> { self@ } }
#[verifier::external_body]
pub struct Sha256 { x: u8 }
impl View for Sha256 { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
pub struct ShaOut { pub d: [u8; 32] }
impl ShaOut {
    pub fn into(self) -> (r: [u8; 32]) ensures r == self.d { self.d }
}
impl Sha256 {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn update<B: VBytes>(&mut self, b: B) ensures final(self)@ == old(self)@ + b.vbytes() { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize_fixed_reset(&mut self) -> (r: ShaOut) ensures r.d@ == sha256(old(self)@), final(self)@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize(self) -> (r: ShaOut) ensures r.d@ == sha256(self@) { unimplemented!() }
}

// ---- iterators: the finite sequence of the items still to come ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VIter<T> { v: Vec<T> }
impl<T> View for VIter<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> Iterator for VIter<T> {
    type Item = T;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
}
impl<T> IteratorSpecImpl for VIter<T> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    #[verifier::prophetic] open spec fn remaining(&self) -> Seq<T> { self@ }
    #[verifier::prophetic] open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { Some(self@.len()) }
    open spec fn peek(&self, i: int) -> Option<T> { if 0 <= i < self@.len() { Some(self@[i]) } else { None } }
}
} // verus!
