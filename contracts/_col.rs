// Collecting, BTreeSet and the iterators of collections.
verus! {
pub assume_specification<'a, T> [core::option::Option::<&T>::copied] (o: core::option::Option<&'a T>) -> (r: core::option::Option<T>)
    where T: core::marker::Copy,
    ensures r == (match o { Some(x) => Some(*x), None => None::<T> });
// ---- collecting ----
pub trait VFromIter<T>: Sized { spec fn collected(s: Seq<T>, r: Self) -> bool; fn vf_from_iter(it: VIter<T>) -> (r: Self) ensures Self::collected(it@, r); }
impl<T> VFromIter<T> for Vec<T> {
    open spec fn collected(s: Seq<T>, r: Vec<T>) -> bool { r@ == s }
    #[verifier::external_body]
    fn vf_from_iter(it: VIter<T>) -> (r: Vec<T>) { unimplemented!() }
}
pub open spec fn oks<T, E>(s: Seq<core::result::Result<T, E>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok }
impl<T, E> VFromIter<core::result::Result<T, E>> for core::result::Result<Vec<T>, E> {
    open spec fn collected(s: Seq<core::result::Result<T, E>>, r: core::result::Result<Vec<T>, E>) -> bool {
        if oks(s) { r is Ok && r->Ok_0@ == Seq::new(s.len(), |i: int| s[i]->Ok_0) } else { r is Err && exists|i: int| 0 <= i < s.len() && s[i] == Err::<T, E>(r->Err_0) && oks(s.take(i)) }
    }
    #[verifier::external_body]
    fn vf_from_iter(it: VIter<core::result::Result<T, E>>) -> (r: core::result::Result<Vec<T>, E>) { unimplemented!() }
}
impl<T> VIter<T> {
    #[verifier::external_body]
    pub fn collect<C: VFromIter<T>>(self) -> (r: C) ensures C::collected(self@, r) { unimplemented!() }
    #[verifier::external_body]
    pub fn peekable(self) -> (r: VIter<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_peek(&mut self) -> (r: Option<&T>) ensures final(self)@ == old(self)@, old(self)@.len() == 0 ==> r is None, old(self)@.len() > 0 ==> r is Some && *r->0 == old(self)@[0] { unimplemented!() }
    #[verifier::external_body]
    pub fn try_fold<B, E, F: Fn(B, T) -> core::result::Result<B, E>>(&mut self, init: B, f: F, Ghost(p): Ghost<spec_fn(B, T) -> core::result::Result<B, E>>) -> (r: core::result::Result<B, E>)
        requires
            forall|b: B, i: int| 0 <= i < old(self)@.len() ==> #[trigger] call_requires(f, (b, old(self)@[i])),
            forall|b: B, i: int, r: core::result::Result<B, E>| 0 <= i < old(self)@.len() && #[trigger] call_ensures(f, (b, old(self)@[i]), r) ==> r == p(b, old(self)@[i]),
        ensures r == stry_fold(old(self)@, init, p),
    { unimplemented!() }
    pub fn vf_into_iter(self) -> (r: VIter<T>) ensures r@ == self@ { self }
}
pub open spec fn stry_fold<T, B, E>(s: Seq<T>, init: B, p: spec_fn(B, T) -> core::result::Result<B, E>) -> core::result::Result<B, E> decreases s.len() {
    if s.len() == 0 { Ok(init) } else { match p(init, s[0]) { Ok(b) => stry_fold(s.skip(1), b, p), Err(e) => Err(e) } }
}
impl<'a, T: Copy> VIter<&'a T> {
    #[verifier::external_body]
    pub fn copied(self) -> (r: VIter<T>) ensures r@ == deref_seq(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn cloned(self) -> (r: VIter<T>) ensures r@ == deref_seq(self@) { unimplemented!() }
}
/// BTreeSet<usize>: its elements; iteration in ascending order
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct BTreeSet<K> { x: Vec<K> }
impl<K> View for BTreeSet<K> { type V = Set<K>; uninterp spec fn view(&self) -> Set<K>; }
pub uninterp spec fn ascending(s: Set<usize>) -> Seq<usize>;
#[verifier::external_body]
pub broadcast proof fn axiom_ascending(s: Set<usize>)
    ensures
        forall|i: int, j: int| 0 <= i < j < (#[trigger] ascending(s)).len() ==> ascending(s)[i] < ascending(s)[j],
        forall|x: usize| s.contains(x) <==> ascending(s).contains(x),
        ascending(s).len() == s.len(),
{}
impl BTreeSet<usize> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<usize>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn extend<I: VIntoIter<Item = usize>>(&mut self, it: I) ensures final(self)@ == old(self)@.union(it.vseq().to_set()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_iter<'a>(&'a self) -> (r: VIter<&'a usize>) ensures r@ == srefs(ascending(self@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: usize) -> (r: bool) ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Set::<usize>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &usize) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
}
pub trait VIntoIter: Sized { type Item; spec fn vseq(self) -> Seq<Self::Item>; fn vf_into_iter(self) -> (r: VIter<Self::Item>) ensures r@ == self.vseq(); }
impl<T> VIntoIter for VIter<T> { type Item = T; open spec fn vseq(self) -> Seq<T> { self@ } fn vf_into_iter(self) -> (r: VIter<T>) { self } }
impl VIntoIter for BTreeSet<usize> { type Item = usize; open spec fn vseq(self) -> Seq<usize> { ascending(self@) }
    #[verifier::external_body]
    fn vf_into_iter(self) -> (r: VIter<usize>) { unimplemented!() } }
impl<T> VIntoIter for Vec<T> { type Item = T; open spec fn vseq(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vf_into_iter(self) -> (r: VIter<T>) { unimplemented!() } }
impl VFromIter<usize> for BTreeSet<usize> {
    open spec fn collected(s: Seq<usize>, r: BTreeSet<usize>) -> bool { r@ == s.to_set() }
    #[verifier::external_body]
    fn vf_from_iter(it: VIter<usize>) -> (r: BTreeSet<usize>) { unimplemented!() }
}
} // verus!
