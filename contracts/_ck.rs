// itertools: chunk_by
verus! {
/// consecutive runs of equal key, in order
pub open spec fn run_len<T, K>(s: Seq<T>, key: spec_fn(T) -> K, k: K) -> int decreases s.len() { if s.len() > 0 && key(s[0]) == k { 1 + run_len(s.skip(1), key, k) } else { 0 } }
pub open spec fn chunks<T, K>(s: Seq<T>, key: spec_fn(T) -> K) -> Seq<(K, Seq<T>)> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else {
        let n = 1 + run_len(s.skip(1), key, key(s[0]));
        if !(1 <= n <= s.len()) { Seq::empty() } else { seq![(key(s[0]), s.take(n))] + chunks(s.skip(n), key) }
    }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(K)]
pub struct VChunks<K, T> { v: Vec<(K, T)> }
impl<K, T> View for VChunks<K, T> { type V = Seq<(K, Seq<T>)>; uninterp spec fn view(&self) -> Seq<(K, Seq<T>)>; }
impl<T> VIter<T> {
    #[verifier::external_body]
    pub fn chunk_by<K, F: Fn(&T) -> K>(self, f: F, Ghost(p): Ghost<spec_fn(T) -> K>) -> (r: VChunks<K, T>)
        requires
            forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&#[trigger] self@[i],)),
            forall|i: int, b: K| 0 <= i < self@.len() && #[trigger] call_ensures(f, (&self@[i],), b) ==> b == p(self@[i]),
        ensures r@ == chunks(self@, p),
    { unimplemented!() }
}
impl<K, T> VChunks<K, T> {
    #[verifier::external_body]
    pub fn vf_iter(&self) -> (r: VIter<(K, VIter<T>)>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> (#[trigger] r@[i]).0 == self@[i].0 && r@[i].1@ == self@[i].1,
    { unimplemented!() }
}
} // verus!
