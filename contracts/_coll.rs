//@include col
// std collections and the rest of the iterator interface.
verus! {
pub trait VDefault: Sized { spec fn default_s() -> Self; fn vdefault() -> (r: Self) ensures r == Self::default_s(); }
impl<T> VDefault for Option<T> { open spec fn default_s() -> Self { None } fn vdefault() -> (r: Self) { None } }
#[verifier::external_body]
pub fn vf_vec_from_elem<T: Copy>(x: T, n: usize) -> (r: Vec<T>) ensures r@ == Seq::new(n as nat, |i: int| x) { unimplemented!() }
pub trait VGet<'a, I>: Sized { type R; spec fn get_is(&self, i: I, r: Self::R) -> bool; fn vf_get(&'a self, i: I) -> (r: Self::R) ensures self.get_is(i, r); }
impl<'a, T: 'a> VGet<'a, usize> for Vec<T> {
    type R = Option<&'a T>;
    open spec fn get_is(&self, i: usize, r: Option<&'a T>) -> bool { if i < self@.len() { r is Some && *r->0 == self@[i as int] } else { r is None } }
    #[verifier::external_body]
    fn vf_get(&'a self, i: usize) -> Option<&'a T> { unimplemented!() }
}
impl<'a, T: 'a> VGet<'a, Range<usize>> for Vec<T> {
    type R = Option<&'a [T]>;
    open spec fn get_is(&self, i: Range<usize>, r: Option<&'a [T]>) -> bool { if i.start <= i.end <= self@.len() { r is Some && r->0@ == self@.subrange(i.start as int, i.end as int) } else { r is None } }
    #[verifier::external_body]
    fn vf_get(&'a self, i: Range<usize>) -> Option<&'a [T]> { unimplemented!() }
}
impl<'a> VGet<'a, usize> for BitList {
    type R = core::result::Result<bool, BtError>;
    open spec fn get_is(&self, i: usize, r: Self::R) -> bool { if i < self@.len() { r == Ok::<bool, BtError>(self@[i as int]) } else { r is Err } }
    #[verifier::external_body]
    fn vf_get(&'a self, i: usize) -> Self::R { unimplemented!() }
}
pub trait VThen { fn vf_then_some<T>(self, t: T) -> (r: Option<T>) ensures r == (if self.is_true() { Some(t) } else { None::<T> }); spec fn is_true(self) -> bool; }
impl VThen for bool {
    open spec fn is_true(self) -> bool { self }
    fn vf_then_some<T>(self, t: T) -> (r: Option<T>) { if self { Some(t) } else { None } }
}
impl<'a> VIter<&'a usize> {
    #[verifier::external_body]
    pub fn max(self) -> (r: Option<&'a usize>)
        ensures
            self@.len() == 0 <==> r is None,
            r is Some ==> (exists|i: int| 0 <= i < self@.len() && *#[trigger] self@[i] == *r->0) && (forall|i: int| 0 <= i < self@.len() ==> *#[trigger] self@[i] <= *r->0),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vf_range_iter(a: usize, b: usize) -> (r: VIter<usize>) ensures r@ == Seq::new((if a < b { b - a } else { 0 }) as nat, |i: int| (a + i) as usize) { unimplemented!() }

#[verifier::external_body]
pub fn vf_range_incl(a: u64, b: u64) -> (r: VIter<u64>) ensures r@ == Seq::new((if a <= b { b - a + 1 } else { 0 }) as nat, |i: int| (a + i) as u64) { unimplemented!() }

/// BTreeMap<usize, V>: its entries in ascending key order
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V> { x: Vec<(K, V)> }
impl<K, V> View for BTreeMap<K, V> { type V = Seq<(K, V)>; uninterp spec fn view(&self) -> Seq<(K, V)>; }
#[verifier::opaque]
pub open spec fn sorted_keys<V>(s: Seq<(usize, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 < (#[trigger] s[j]).0 }
#[verifier::opaque]
pub open spec fn lookup<K, V>(s: Seq<(K, V)>, k: K) -> Option<V> {
    if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k { Some(s[choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k].1) } else { None }
}
pub broadcast proof fn lookup_empty<K, V>(k: K)
    ensures #[trigger] lookup(Seq::<(K, V)>::empty(), k) is None,
{ reveal(lookup); }
pub broadcast proof fn sorted_empty<V>(s: Seq<(usize, V)>)
    requires s.len() == 0,
    ensures #[trigger] sorted_keys(s),
{ reveal(sorted_keys); }
pub open spec fn values_of<'a, V>(s: Seq<(usize, V)>) -> Seq<&'a V> { Seq::new(s.len(), |i: int| &s[i].1) }
pub open spec fn pair_refs<'a, K, V>(s: Seq<(K, V)>) -> Seq<(&'a K, &'a V)> { Seq::new(s.len(), |i: int| (&s[i].0, &s[i].1)) }
impl<K, V> BTreeMap<K, V> {
    #[verifier::external_body]
    pub fn vf_get(&self, k: &K) -> (r: Option<&V>) ensures match lookup(self@, *k) { Some(v) => r is Some && *r->0 == v, None => r is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_iter<'a>(&'a self) -> (r: VIter<(&'a K, &'a V)>) ensures r@ == pair_refs(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_value_mut(&mut self, i: usize) -> (r: &mut V)
        requires i < old(self)@.len(),
        ensures *r == old(self)@[i as int].1, final(self)@ == old(self)@.update(i as int, (old(self)@[i as int].0, *final(r))),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub const fn new() -> (r: Self) ensures r@ == Seq::<(K, V)>::empty() { unimplemented!() }
}
/// key order; only that of usize is ever relied on
pub trait VKey: Sized { spec fn klt(a: Self, b: Self) -> bool; }
impl VKey for usize { open spec fn klt(a: usize, b: usize) -> bool { a < b } }
pub uninterp spec fn b256_lt(a: B256, b: B256) -> bool;
impl VKey for B256 { open spec fn klt(a: B256, b: B256) -> bool { b256_lt(a, b) } }
impl<K: VKey, V> BTreeMap<K, V> {
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures
            forall|j: K| #[trigger] lookup(final(self)@, j) == if j == k { Some(v) } else { lookup(old(self)@, j) },
            forall|i: int, j: int| 0 <= i < j < final(self)@.len() ==> K::klt((#[trigger] final(self)@[i]).0, (#[trigger] final(self)@[j]).0),
            (forall|i: int| 0 <= i < old(self)@.len() ==> K::klt((#[trigger] old(self)@[i]).0, k)) ==> final(self)@ == old(self)@.push((k, v)),
    { unimplemented!() }
}
impl<V> BTreeMap<usize, V> {
    #[verifier::external_body]
    pub proof fn ordered(&self) ensures sorted_keys(self@) {}
    #[verifier::external_body]
    pub fn keys<'a>(&'a self) -> (r: VIter<&'a usize>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self@[i].0, sorted_keys(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn values<'a>(&'a self) -> (r: VIter<&'a V>) ensures r@ == values_of(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &usize) -> (r: bool) ensures r == (lookup(self@, *k) is Some) { unimplemented!() }
}
impl<V> VFromIter<(usize, V)> for BTreeMap<usize, V> {
    open spec fn collected(s: Seq<(usize, V)>, r: BTreeMap<usize, V>) -> bool { sorted_keys(r@) && (sorted_keys(s) ==> r@ == s) }
    #[verifier::external_body]
    fn vf_from_iter(it: VIter<(usize, V)>) -> (r: BTreeMap<usize, V>) { unimplemented!() }
}
} // verus!
