// Iterator adapters and collections of std, as finite sequences. Closures handed to an adapter come with the
// specification function they implement; the adapter demands that they do.
verus! {
pub open spec fn szip<A, B>(a: Seq<A>, b: Seq<B>) -> Seq<(A, B)> { Seq::new(if a.len() < b.len() { a.len() } else { b.len() }, |i: int| (a[i], b[i])) }
pub open spec fn senum<A>(a: Seq<A>) -> Seq<(usize, A)> { Seq::new(a.len(), |i: int| (i as usize, a[i])) }
pub open spec fn sfilter<A>(a: Seq<A>, p: spec_fn(A) -> bool) -> Seq<A> decreases a.len() {
    if a.len() == 0 { Seq::empty() } else if p(a[0]) { seq![a[0]] + sfilter(a.skip(1), p) } else { sfilter(a.skip(1), p) }
}
pub open spec fn sfilter_map<A, B>(a: Seq<A>, p: spec_fn(A) -> Option<B>) -> Seq<B> decreases a.len() {
    if a.len() == 0 { Seq::empty() } else if p(a[0]) is Some { seq![p(a[0])->0] + sfilter_map(a.skip(1), p) } else { sfilter_map(a.skip(1), p) }
}
pub open spec fn sfind<A>(a: Seq<A>, p: spec_fn(A) -> bool) -> Option<A> decreases a.len() {
    if a.len() == 0 { None } else if p(a[0]) { Some(a[0]) } else { sfind(a.skip(1), p) }
}
pub open spec fn smap<A, B>(a: Seq<A>, p: spec_fn(A) -> B) -> Seq<B> { Seq::new(a.len(), |i: int| p(a[i])) }
pub open spec fn deref_seq<'a, T>(s: Seq<&'a T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
pub open spec fn srefs<'a, A>(a: Seq<A>) -> Seq<&'a A> { Seq::new(a.len(), |i: int| &a[i]) }
pub open spec fn all_req1<T, B, F: Fn(T) -> B>(f: F, s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> call_requires(f, (#[trigger] s[i],)) }
pub open spec fn impl1<T, B, F: Fn(T) -> B>(f: F, p: spec_fn(T) -> B, s: Seq<T>) -> bool { forall|i: int, b: B| 0 <= i < s.len() && #[trigger] call_ensures(f, (s[i],), b) ==> b == p(s[i]) }
impl<T> VIter<T> {
    #[verifier::external_body]
    pub fn map<B, F: Fn(T) -> B>(self, f: F, Ghost(p): Ghost<spec_fn(T) -> B>) -> (r: VIter<B>)
        requires all_req1(f, self@), impl1(f, p, self@),
        ensures r@ == smap(self@, p),
    { unimplemented!() }
    /// map with a closure known by its contract only; the closure must not reject
    #[verifier::external_body]
    pub fn map_rel<B, F: Fn(T) -> B>(self, f: F) -> (r: VIter<B>)
        requires all_req1(f, self@),
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), #[trigger] r@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool>(self, f: F, Ghost(p): Ghost<spec_fn(T) -> bool>) -> (r: VIter<T>)
        requires
            forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&#[trigger] self@[i],)),
            forall|i: int, b: bool| 0 <= i < self@.len() && #[trigger] call_ensures(f, (&self@[i],), b) ==> b == p(self@[i]),
        ensures r@ == sfilter(self@, p),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter_map<B, F: Fn(T) -> Option<B>>(self, f: F, Ghost(p): Ghost<spec_fn(T) -> Option<B>>) -> (r: VIter<B>)
        requires all_req1(f, self@), impl1(f, p, self@),
        ensures r@ == sfilter_map(self@, p),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: VIter<(usize, T)>) ensures r@ == senum(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn zip<B>(self, b: VIter<B>) -> (r: VIter<(T, B)>) ensures r@ == szip(self@, b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn find<F: Fn(&T) -> bool>(&mut self, f: F, Ghost(p): Ghost<spec_fn(T) -> bool>) -> (r: Option<T>)
        requires
            forall|i: int| 0 <= i < old(self)@.len() ==> call_requires(f, (&#[trigger] old(self)@[i],)),
            forall|i: int, b: bool| 0 <= i < old(self)@.len() && #[trigger] call_ensures(f, (&old(self)@[i],), b) ==> b == p(old(self)@[i]),
        ensures r == sfind(old(self)@, p),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: VIter<T>) ensures r@ == if n < self@.len() { self@.take(n as int) } else { self@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: VIter<T>) ensures r@ == if n < self@.len() { self@.skip(n as int) } else { Seq::empty() } { unimplemented!() }
    #[verifier::external_body]
    pub fn chain(self, b: VIter<T>) -> (r: VIter<T>) ensures r@ == self@ + b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: VIter<T>) ensures r@ == self@.reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn last(self) -> (r: Option<T>) ensures r == if self@.len() > 0 { Some(self@.last()) } else { None } { unimplemented!() }
}
pub trait VIterSrc { type E; spec fn vf_src(&self) -> Seq<Self::E>; fn vf_iter(&self) -> (r: VIter<&Self::E>) ensures r@ == srefs(self.vf_src()); }
impl<T> VIterSrc for Vec<T> { type E = T; open spec fn vf_src(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vf_iter(&self) -> (r: VIter<&T>) { unimplemented!() } }
impl<T> VIterSrc for [T] { type E = T; open spec fn vf_src(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vf_iter(&self) -> (r: VIter<&T>) { unimplemented!() } }
impl<T, const N: usize> VIterSrc for [T; N] { type E = T; open spec fn vf_src(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vf_iter(&self) -> (r: VIter<&T>) { unimplemented!() } }
} // verus!
