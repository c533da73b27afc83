// The builder (ssz-multiproofs/src/builder.rs).
verus! {
// ---- models ----
impl From<ssz_rs::MerkleizationError> for Error {
    #[verifier::external_body]
    fn from(e: ssz_rs::MerkleizationError) -> Self { unimplemented!() }
}
pub type GeneralizedIndex = usize;
pub assume_specification [usize::leading_zeros] (x: usize) -> (r: u32)
    ensures r == 64 - bl(x as nat);
pub assume_specification [usize::trailing_zeros] (x: usize) -> (r: u32)
    ensures r == tz(x as nat);
pub trait VMax: Sized { fn vf_maxm(self, o: Self) -> Self; }
impl VMax for usize { fn vf_maxm(self, o: usize) -> (r: usize) ensures r >= self, r >= o, r == self || r == o { if self < o { o } else { self } } }
#[verifier::external_body]
pub fn vf_repeat_n<T: Copy>(x: T, n: usize) -> (r: VIter<T>) ensures r@ == Seq::new(n as nat, |i: int| x) { unimplemented!() }
/// a Vec handed out as a slice is no longer than a Rust slice can be
#[verifier::external_body]
pub fn vf_owned(v: Vec<u8>) -> (r: &'static [u8]) ensures r@ == v@, r@.len() <= isize::MAX { unimplemented!() }
pub trait VExtend<T>: Sized { spec fn extended(a: Self, s: Seq<T>, b: Self) -> bool; fn vf_extend<I: VIntoIter<Item = T>>(&mut self, it: I) ensures Self::extended(*old(self), it.vseq(), *final(self)); }
impl<T> VExtend<T> for Vec<T> {
    open spec fn extended(a: Self, s: Seq<T>, b: Self) -> bool { b@ == a@ + s }
    #[verifier::external_body]
    fn vf_extend<I: VIntoIter<Item = T>>(&mut self, it: I) { unimplemented!() }
}
impl VExtend<usize> for BTreeSet<usize> {
    open spec fn extended(a: Self, s: Seq<usize>, b: Self) -> bool { b@ == a@.union(s.to_set()) }
    #[verifier::external_body]
    fn vf_extend<I: VIntoIter<Item = usize>>(&mut self, it: I) { unimplemented!() }
}
/// HashSet<usize>: its elements; iteration in some order, each element once
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { x: Vec<K> }
impl<K> View for HashSet<K> { type V = Set<K>; uninterp spec fn view(&self) -> Set<K>; }
pub uninterp spec fn hash_order(s: HashSet<usize>) -> Seq<usize>;
#[verifier::external_body]
pub broadcast proof fn axiom_hash_order(s: HashSet<usize>)
    ensures #![trigger hash_order(s)] hash_order(s).no_duplicates(), forall|x: usize| s@.contains(x) <==> hash_order(s).contains(x) {}
impl HashSet<usize> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<usize>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn difference<'a>(&'a self, o: &'a HashSet<usize>) -> (r: VIter<&'a usize>)
        ensures
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> *#[trigger] r@[i] != *#[trigger] r@[j],
            forall|i: int| 0 <= i < r@.len() ==> self@.contains(*#[trigger] r@[i]) && !o@.contains(*r@[i]),
            forall|x: usize| #[trigger] self@.contains(x) && !o@.contains(x) ==> exists|i: int| 0 <= i < r@.len() && *#[trigger] r@[i] == x,
    { unimplemented!() }
}
impl VIntoIter for HashSet<usize> { type Item = usize; open spec fn vseq(self) -> Seq<usize> { hash_order(self) }
    #[verifier::external_body]
    fn vf_into_iter(self) -> (r: VIter<usize>) { unimplemented!() } }
impl VExtend<usize> for HashSet<usize> {
    open spec fn extended(a: Self, s: Seq<usize>, b: Self) -> bool { b@ == a@.union(s.to_set()) }
    #[verifier::external_body]
    fn vf_extend<I: VIntoIter<Item = usize>>(&mut self, it: I) { unimplemented!() }
}
impl VFromIter<usize> for HashSet<usize> {
    open spec fn collected(s: Seq<usize>, r: HashSet<usize>) -> bool { r@ == s.to_set() }
    #[verifier::external_body]
    fn vf_from_iter(it: VIter<usize>) -> (r: HashSet<usize>) { unimplemented!() }
}
impl<'a> VFromIter<&'a bool> for Vec<bool> {
    open spec fn collected(s: Seq<&'a bool>, r: Vec<bool>) -> bool { r@ == deref_seq(s) }
    #[verifier::external_body]
    fn vf_from_iter(it: VIter<&'a bool>) -> (r: Vec<bool>) { unimplemented!() }
}
/// an order a sort can rely on
pub open spec fn total_order<T>(p: spec_fn(T, T) -> Ordering) -> bool {
    &&& forall|a: T| #[trigger] p(a, a) == Ordering::Equal
    &&& forall|a: T, b: T| #[trigger] p(a, b) == Ordering::Less <==> p(b, a) == Ordering::Greater
    &&& forall|a: T, b: T, c: T| #[trigger] p(a, b) != Ordering::Greater && #[trigger] p(b, c) != Ordering::Greater ==> p(a, c) != Ordering::Greater
}
pub open spec fn sflat<A, B>(s: Seq<A>, p: spec_fn(A) -> Seq<B>) -> Seq<B> decreases s.len() { if s.len() == 0 { Seq::empty() } else { sflat(s.drop_last(), p) + p(s.last()) } }
impl<T> VIter<T> {
    #[verifier::external_body]
    pub fn sorted_by<F: Fn(&T, &T) -> Ordering>(self, f: F, Ghost(p): Ghost<spec_fn(T, T) -> Ordering>) -> (r: VIter<T>)
        requires
            total_order(p),
            forall|a: T, b: T| #[trigger] call_requires(f, (&a, &b)),
            forall|a: T, b: T, o: Ordering| #[trigger] call_ensures(f, (&a, &b), o) ==> o == p(a, b),
        ensures
            r@.to_multiset() == self@.to_multiset(),
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> p(#[trigger] r@[i], #[trigger] r@[j]) != Ordering::Greater,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flat_map<'a, U, F: Fn(T) -> &'a [U]>(self, f: F, Ghost(p): Ghost<spec_fn(T) -> Seq<U>>) -> (r: VIter<&'a U>)
        requires
            all_req1(f, self@),
            forall|i: int, b: &'a [U]| 0 <= i < self@.len() && #[trigger] call_ensures(f, (self@[i],), b) ==> b@ == p(self@[i]),
        ensures deref_seq(r@) == sflat(self@, p),
    { unimplemented!() }
}
impl<A, B> VIter<(A, B)> {
    #[verifier::external_body]
    pub fn unzip(self) -> (r: (Vec<A>, Vec<B>))
        ensures r.0@ == Seq::new(self@.len(), |i: int| self@[i].0), r.1@ == Seq::new(self@.len(), |i: int| self@[i].1),
    { unimplemented!() }
}
/// rayon: the items of an indexed parallel iterator, in position order
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VPar<T> { v: Vec<T> }
impl<T> View for VPar<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> VPar<T> {
    #[verifier::external_body]
    pub fn with_min_len(self, n: usize) -> (r: VPar<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn map<B, F: Fn(T) -> B>(self, f: F) -> (r: VPar<B>)
        requires all_req1(f, self@),
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), #[trigger] r@[i]),
    { unimplemented!() }
    /// combined in any bracketing, with identities anywhere; p(lo, hi, x): x combines the items from lo to hi
    #[verifier::external_body]
    pub fn reduce<I: Fn() -> T, F: Fn(T, T) -> T>(self, id: I, f: F, Ghost(p): Ghost<spec_fn(int, int, T) -> bool>) -> (r: T)
        requires
            call_requires(id, ()),
            forall|x: T, k: int| 0 <= k <= self@.len() && call_ensures(id, (), x) ==> #[trigger] p(k, k, x),
            forall|i: int| 0 <= i < self@.len() ==> p(i, i + 1, #[trigger] self@[i]),
            forall|a: T, b: T, lo: int, mid: int, hi: int| #[trigger] p(lo, mid, a) && #[trigger] p(mid, hi, b) ==> call_requires(f, (a, b)),
            forall|a: T, b: T, c: T, lo: int, mid: int, hi: int| #[trigger] p(lo, mid, a) && #[trigger] p(mid, hi, b) && #[trigger] call_ensures(f, (a, b), c) ==> p(lo, hi, c),
        ensures p(0, self@.len() as int, r),
    { unimplemented!() }
}
/// collecting into Result<Vec<_>>: some error if there is one
pub trait VParFrom<T>: Sized { spec fn pcollected(s: Seq<T>, r: Self) -> bool; }
impl<T, E> VParFrom<core::result::Result<T, E>> for core::result::Result<Vec<T>, E> {
    open spec fn pcollected(s: Seq<core::result::Result<T, E>>, r: Self) -> bool {
        if oks(s) { r is Ok && r->Ok_0@ == Seq::new(s.len(), |i: int| s[i]->Ok_0) } else { r is Err && exists|i: int| 0 <= i < s.len() && s[i] == Err::<T, E>(r->Err_0) }
    }
}
impl<T> VPar<T> {
    #[verifier::external_body]
    pub fn collect<C: VParFrom<T>>(self) -> (r: C) ensures C::pcollected(self@, r) { unimplemented!() }
}
pub trait VParSrc { type E; spec fn vf_psrc(&self) -> Seq<Self::E>; fn vf_par_iter(&self) -> (r: VPar<&Self::E>) ensures r@ == srefs(self.vf_psrc()); }
impl<T> VParSrc for [T] { type E = T; open spec fn vf_psrc(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vf_par_iter(&self) -> (r: VPar<&T>) { unimplemented!() } }
impl<T> VParSrc for Vec<T> { type E = T; open spec fn vf_psrc(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vf_par_iter(&self) -> (r: VPar<&T>) { unimplemented!() } }
/// ssz_rs: a container is a Merkle tree; node(g) is the 32-byte chunk at g, if there is one
pub struct VTree { pub x: u8 }
pub trait Prove: Sized {
    spec fn node(&self, g: nat) -> Option<Seq<u8>>;
    spec fn is_tree(&self, t: VTree) -> bool;
    proof fn merkle(&self)
        ensures
            forall|g: nat| (#[trigger] self.node(g)) is Some ==> self.node(g)->0.len() == 32,
            forall|g: nat| g >= 1 && ((#[trigger] self.node(2 * g)) is Some || self.node(2 * g + 1) is Some) ==> self.node(2 * g) is Some && self.node(2 * g + 1) is Some && self.node(g) == Some(sha256(self.node(2 * g)->0 + self.node(2 * g + 1)->0));
    fn compute_tree(&self) -> (r: core::result::Result<VTree, ssz_rs::MerkleizationError>)
        ensures r is Ok <==> self.node(1) is Some, r is Ok ==> self.is_tree(r->Ok_0);
}
pub struct Node { pub d: [u8; 32] }
impl Node { pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self.d@ { &self.d } }
pub struct Proof { pub leaf: Node }
#[verifier::external_body]
pub struct Prover { x: u8 }
impl Prover {
    pub uninterp spec fn at(&self) -> nat;
    pub uninterp spec fn done(&self) -> Option<Seq<u8>>;
    #[verifier::external_body]
    pub fn vf_from(g: usize) -> (r: Self) ensures r.at() == g, r.done() is None { unimplemented!() }
    #[verifier::external_body]
    pub fn compute_proof_cached_tree<T: Prove>(&mut self, c: &T, t: &VTree) -> (r: core::result::Result<(), ssz_rs::MerkleizationError>)
        requires c.is_tree(*t),
        ensures final(self).at() == old(self).at(), match c.node(old(self).at()) { Some(x) => r is Ok && final(self).done() == Some(x), None => r is Err },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_proof(self) -> (r: Proof) requires self.done() is Some ensures r.leaf.d@ == self.done()->0 { unimplemented!() }
}
/// a type's paths
pub struct Path { pub x: u8 }
pub trait GeneralizedIndexable {
    spec fn gindex_of(p: Path) -> Option<usize>;
    fn generalized_index(p: Path) -> (r: core::result::Result<usize, ssz_rs::MerkleizationError>) ensures match Self::gindex_of(p) { Some(g) => r is Ok && r->Ok_0 == g, None => r is Err };
}

// ---- indices ----
//@fn ssz-multiproofs/src/builder.rs | sibling
//@ensures
        vr as nat == if index % 2 == 0 { index + 1 } else { index - 1 },
//@begin
    proof { assert((index ^ 1) == if index % 2 == 0 { (index + 1) as usize } else { (index - 1) as usize }) by (bit_vector); }
//@end
//@fn ssz-multiproofs/src/builder.rs | parent
//@ensures
        vr == index / 2,
//@end
/// the indices from a up to, not including, the root
pub open spec fn path(a: nat) -> Seq<nat> decreases a { if a <= 1 { Seq::empty() } else { seq![a] + path(a / 2) } }
pub open spec fn branch(a: nat) -> Seq<nat> { Seq::new(path(a).len(), |i: int| nsib(path(a)[i])) }
pub open spec fn nats(s: Seq<usize>) -> Seq<nat> { Seq::new(s.len(), |i: int| s[i] as nat) }
pub proof fn path_is(a: nat, h: nat) ensures path(a).contains(h) <==> h > 1 && under(a, h) decreases a
{
    if a > 1 {
        path_is(a / 2, h);
        let (s, t) = (seq![a] + path(a / 2), path(a / 2));
        if s.contains(h) { let i = choose|i: int| 0 <= i < s.len() && s[i] == h; if i > 0 { assert(t[i - 1] == h); assert(t.contains(h)); } }
        if h > 1 && under(a, h) { if a == h { assert(s[0] == h); } else { let i = choose|i: int| 0 <= i < t.len() && t[i] == h; assert(s[i + 1] == h); } }
    } else if under(a, h) { under_le(a, h); }
}
pub proof fn branch_is(a: nat, h: nat) ensures branch(a).contains(h) <==> h > 1 && under(a, nsib(h))
{
    let (p, b) = (path(a), branch(a));
    if b.contains(h) { let i = choose|i: int| 0 <= i < b.len() && b[i] == h; assert(p.contains(p[i])); path_is(a, p[i]); assert(nsib(nsib(p[i])) == p[i]); }
    if h > 1 && under(a, nsib(h)) { path_is(a, nsib(h)); let i = choose|i: int| 0 <= i < p.len() && p[i] == nsib(h); assert(b[i] == h); }
}
//@fn ssz-multiproofs/src/builder.rs | get_path_indices
//@ensures
        nats(vr@) == path(tree_index as nat),
//@loop 0
        invariant
            result@.len() > 0, result@.last() == focus,
            if tree_index > 1 { nats(result@.drop_last()) + path(focus as nat) =~= path(tree_index as nat) && focus >= 1 } else { result@.len() == 1 && focus <= 1 },
        decreases focus
//@loop-begin 0
        let ghost f0 = focus;
        let ghost r0 = result@;
//@loop-end 0
        proof {
            assert(result@.drop_last() == r0);
            assert(nats(r0) =~= nats(r0.drop_last()) + seq![f0 as nat]);
        }
//@end
pub proof fn branch_step(a: nat) requires a > 1 ensures branch(a) == seq![nsib(a)] + branch(a / 2)
{ assert(branch(a) =~= seq![nsib(a)] + branch(a / 2)); }
//@fn ssz-multiproofs/src/builder.rs | get_branch_indices
//@ensures
        nats(vr@) == branch(tree_index as nat),
//@loop 0
        invariant
            result@.len() > 0, result@.last() == focus,
            if tree_index > 1 { nats(result@.drop_last()) + branch(nsib(focus as nat)) =~= branch(tree_index as nat) && focus != 1 } else { result@.len() == 1 && focus <= 1 },
        decreases focus
//@loop-begin 0
        let ghost f0 = focus;
        let ghost r0 = result@;
        proof { branch_step(nsib(focus as nat)); assert(nsib(focus as nat) / 2 == focus as nat / 2); }
//@loop-end 0
        proof {
            assert(result@.drop_last() == r0);
            assert(nats(r0) =~= nats(r0.drop_last()) + seq![f0 as nat]);
        }
//@end

// ---- the order ----
pub open spec fn cmp_s(a: nat, b: nat) -> Ordering { if before(a, b) { Ordering::Less } else if before(b, a) { Ordering::Greater } else { Ordering::Equal } }
pub proof fn sh_fits(a: nat) requires 0 < a < two64() ensures sh(a) < two64(), 1 <= bl(a) <= 64, sh(a) > 0
{
    bl_64(a); bl_bound(a);
    let w = width(a);
    lemma_pow2_pos((64 - bl(a)) as nat);
    lemma_pow2_adds(bl(a), (64 - bl(a)) as nat);
    lemma2_to64(); lemma2_to64_rest();
    assert(pow2(64) == two64());
    assert(a * w < pow2(bl(a)) * w) by (nonlinear_arith) requires a < pow2(bl(a)), w > 0;
    assert(a * w > 0) by (nonlinear_arith) requires a > 0, w > 0;
}
//@fn ssz-multiproofs/src/builder.rs | cmp_binary_lexicographically
//@ensures
        vr == cmp_s(a as nat, b as nat),
//@begin
    proof {
        lemma2_to64();
        assert(bl(0) == 0 && sh(0) == 0);
        if a > 0 { sh_fits(a as nat); vstd::bits::lemma_usize_shl_is_mul(a, (64 - bl(a as nat)) as usize); }
        if b > 0 { sh_fits(b as nat); vstd::bits::lemma_usize_shl_is_mul(b, (64 - bl(b as nat)) as usize); }
    }
//@end
pub open spec fn pair_cmp() -> spec_fn((usize, bool), (usize, bool)) -> Ordering { |x: (usize, bool), y: (usize, bool)| cmp_s(x.0 as nat, y.0 as nat) }
pub proof fn pair_total() ensures total_order(pair_cmp()) {}

// ---- the shape ----
//@fn ssz-multiproofs/src/builder.rs | compute_proof_descriptor | {"for_wrap": "vf_iter"}
//@ensures
        vr is Ok, vr->Ok_0@ == shape(nats(proof_indices@)),
//@loop 0
        invariant
            it.seq() == srefs(proof_indices@),
            descriptor@ == shape(nats(proof_indices@).take(it.index@)),
//@loop-begin 0
        proof {
            let n = nats(proof_indices@); let k = it.index@;
            assert(n.take(k + 1).drop_last() == n.take(k));
            assert(n.take(k + 1).last() == *index as nat);
        }
//@loop-end 0
        proof { assert(descriptor@ =~= shape(nats(proof_indices@).take(it.index@ + 1))); }
//@loop-after 0
    proof { assert(nats(proof_indices@).take(proof_indices@.len() as int) == nats(proof_indices@)); }
//@end

// ---- the indices of the proof ----
pub open spec fn some_branch(s: Seq<usize>, lo: int, hi: int, h: usize) -> bool { exists|i: int| lo <= i < hi && #[trigger] branch(s[i] as nat).contains(h as nat) }
pub open spec fn some_path(s: Seq<usize>, lo: int, hi: int, h: usize) -> bool { exists|i: int| lo <= i < hi && #[trigger] path(s[i] as nat).contains(h as nat) }
pub open spec fn gathered(s: Seq<usize>) -> spec_fn(int, int, (HashSet<usize>, HashSet<usize>)) -> bool {
    |lo: int, hi: int, x: (HashSet<usize>, HashSet<usize>)| gathered_at(s, lo, hi, x)
}
pub open spec fn gathered_at(s: Seq<usize>, lo: int, hi: int, x: (HashSet<usize>, HashSet<usize>)) -> bool {
    &&& 0 <= lo <= hi <= s.len()
    &&& forall|h: usize| #[trigger] x.0@.contains(h) <==> some_branch(s, lo, hi, h)
    &&& forall|h: usize| #[trigger] x.1@.contains(h) <==> some_path(s, lo, hi, h)
}
pub broadcast proof fn smap_at<A, B>(a: Seq<A>, p: spec_fn(A) -> B, i: int) requires 0 <= i < a.len() ensures #![trigger a[i], smap(a, p)] smap(a, p)[i] == p(a[i]) {}
pub broadcast proof fn nats_set(s: Seq<usize>, h: usize) ensures #[trigger] s.to_set().contains(h) <==> nats(s).contains(h as nat)
{
    if s.contains(h) { let i = choose|i: int| 0 <= i < s.len() && s[i] == h; assert(nats(s)[i] == h as nat); }
    if nats(s).contains(h as nat) { let i = choose|i: int| 0 <= i < s.len() && nats(s)[i] == h as nat; assert(s[i] == h); }
}
proof fn gathered_is(s: Seq<usize>, x: (HashSet<usize>, HashSet<usize>), h: usize)
    requires gathered_at(s, 0, s.len() as int, x),
    ensures x.0@.contains(h) && !x.1@.contains(h) <==> helper(s.to_set(), h as nat),
{
    let (t, n) = (s.to_set(), h as nat);
    if some_branch(s, 0, s.len() as int, h) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] branch(s[i] as nat).contains(n); branch_is(s[i] as nat, n); assert(t.contains(s[i])); }
    if some_path(s, 0, s.len() as int, h) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] path(s[i] as nat).contains(n); path_is(s[i] as nat, n); assert(t.contains(s[i])); assert(occ(t, n)); }
    if occ(t, nsib(n)) && n > 1 { let a = choose|a: usize| t.contains(a) && #[trigger] under(a as nat, nsib(n)); branch_is(a as nat, n); let i = choose|i: int| 0 <= i < s.len() && s[i] == a; assert(branch(s[i] as nat).contains(n)); }
    if occ(t, n) && n > 1 { let a = choose|a: usize| t.contains(a) && #[trigger] under(a as nat, n); path_is(a as nat, n); let i = choose|i: int| 0 <= i < s.len() && s[i] == a; assert(path(s[i] as nat).contains(n)); }
}
pub open spec fn firsts(s: Seq<(usize, bool)>) -> Seq<usize> { Seq::new(s.len(), |i: int| s[i].0) }
pub open spec fn helpers_of(t: Set<usize>, hs: Seq<(usize, bool)>) -> bool {
    &&& forall|i: int| 0 <= i < hs.len() ==> !(#[trigger] hs[i]).1 && helper(t, hs[i].0 as nat)
    &&& forall|i: int, j: int| 0 <= i < j < hs.len() ==> (#[trigger] hs[i]).0 != (#[trigger] hs[j]).0
    &&& forall|h: usize| #[trigger] helper(t, h as nat) ==> exists|i: int| 0 <= i < hs.len() && (#[trigger] hs[i]).0 == h
}
proof fn pairs_sorted(s: Seq<usize>, hs: Seq<(usize, bool)>, vs: Seq<(usize, bool)>, im: Seq<(usize, bool)>)
    requires
        okset(s.to_set()), s.no_duplicates(), helpers_of(s.to_set(), hs),
        vs.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] vs[i] == (s[i], true),
        im.to_multiset() == (hs + vs).to_multiset(),
        forall|i: int, j: int| 0 <= i < j < im.len() ==> pair_cmp()(#[trigger] im[i], #[trigger] im[j]) != Ordering::Greater,
    ensures
        ordered(nats(firsts(im))),
        forall|h: nat| #[trigger] nats(firsts(im)).contains(h) <==> wanted(s.to_set(), h),
        forall|i: int| 0 <= i < im.len() ==> (#[trigger] im[i]).1 == s.contains(im[i].0),
{
    let (t, b) = (s.to_set(), hs + vs);
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies #[trigger] b[i] != #[trigger] b[j] by {
        let n = hs.len() as int;
        if j < n {} else if i >= n { assert(b[i] == vs[i - n] && b[j] == vs[j - n]); } else { assert(b[j] == vs[j - n]); }
    }
    assert(b.no_duplicates());
    b.lemma_multiset_has_no_duplicates();
    im.lemma_multiset_has_no_duplicates_conv();
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|x: (usize, bool)| #[trigger] im.contains(x) <==> b.contains(x) by { assert(im.to_multiset().count(x) == b.to_multiset().count(x)); }
    assert forall|i: int| 0 <= i < im.len() implies (if (#[trigger] im[i]).1 { t.contains(im[i].0) } else { helper(t, im[i].0 as nat) }) by {
        assert(im.contains(im[i])); assert(b.contains(im[i])); let k = choose|k: int| 0 <= k < b.len() && b[k] == im[i];
        if k >= hs.len() { assert(b[k] == vs[k - hs.len()]); }
    }
    assert forall|h: usize| !(t.contains(h) && #[trigger] helper(t, h as nat)) by { if t.contains(h) { assert(under(h as nat, h as nat)); } }
    let f = nats(firsts(im));
    assert forall|i: int, j: int| 0 <= i < j < f.len() implies before(#[trigger] f[i], #[trigger] f[j]) by {
        assert(im[i] != im[j]);
        assert(im[i].0 != im[j].0);
        assert(pair_cmp()(im[i], im[j]) != Ordering::Greater);
        before_total(f[i], f[j]);
    }
    assert forall|h: nat| #[trigger] f.contains(h) <==> wanted(t, h) by {
        if f.contains(h) { let i = choose|i: int| 0 <= i < f.len() && f[i] == h; assert(im[i].0 as nat == h); }
        if wanted(t, h) {
            wanted_fits(t, h);
            let u = h as usize;
            let x = (u, member(t, h));
            if member(t, h) { let k = choose|k: int| 0 <= k < s.len() && s[k] == u; assert(vs[k] == x); assert(b[hs.len() + k] == x); }
            else { assert(helper(t, u as nat)); let k = choose|k: int| 0 <= k < hs.len() && (#[trigger] hs[k]).0 == u; assert(b[k] == x); }
            assert(b.contains(x)); assert(im.contains(x));
            let i = choose|i: int| 0 <= i < im.len() && im[i] == x;
            assert(f[i] == h);
        }
    }
}
//@fn ssz-multiproofs/src/builder.rs | compute_proof_indices_and_value_mask
//@ensures
        okset(indices@.to_set()) && indices@.no_duplicates() ==> {
            &&& ordered(nats(vr.0@))
            &&& forall|h: nat| #[trigger] nats(vr.0@).contains(h) <==> wanted(indices@.to_set(), h)
            &&& vr.1@ == Seq::new(vr.0@.len(), |i: int| indices@.contains(vr.0@[i]))
        },
//@begin
    broadcast use axiom_hash_order, nats_set, smap_at;
    proof { pair_total(); }
//@after-let helper_indices
    let ghost hs = helper_indices@;
    proof { let x = (all_helper_indices, all_path_indices); assert(gathered(indices@)(0, indices@.len() as int, x)); assert forall|h: usize| x.0@.contains(h) && !x.1@.contains(h) <==> #[trigger] helper(indices@.to_set(), h as nat) by { gathered_is(indices@, x, h); } }
//@after-let idx_and_mask
    proof { 
        let vs = smap(srefs(indices@), |a: &usize| (*a, true));
        if okset(indices@.to_set()) && indices@.no_duplicates() { pairs_sorted(indices@, hs, vs, idx_and_mask@); }
        assert(firsts(idx_and_mask@) =~= Seq::new(idx_and_mask@.len(), |i: int| idx_and_mask@[i].0));
    }
//@closure 0
        |$0: &usize| -> (r: (HashSet<usize>, HashSet<usize>))
            ensures forall|h: usize| #[trigger] r.0@.contains(h) <==> branch(*$0 as nat).contains(h as nat), forall|h: usize| #[trigger] r.1@.contains(h) <==> path(*$0 as nat).contains(h as nat)
//@closure 1
        || -> (r: (HashSet<usize>, HashSet<usize>)) ensures r.0@ == Set::<usize>::empty(), r.1@ == Set::<usize>::empty()
//@closure 2
        |$0: (HashSet<usize>, HashSet<usize>), $1: (HashSet<usize>, HashSet<usize>)| -> (r: (HashSet<usize>, HashSet<usize>)) ensures r.0@ =~= $0.0@.union($1.0@), r.1@ =~= $0.1@.union($1.1@)
//@closure-ghost 2
gathered(indices@)
//@closure 3
        |$0: &usize| -> (r: (usize, bool)) ensures r == (*$0, false)
//@closure-ghost 3
|a: &usize| (*a, false)
//@closure 4
        |$0: &usize| -> (r: (usize, bool)) ensures r == (*$0, true)
//@closure-ghost 4
|a: &usize| (*a, true)
//@closure 5
        |$0: &(usize, bool), $1: &(usize, bool)| -> (r: Ordering) ensures r == pair_cmp()(*$0, *$1)
//@closure-ghost 5
pair_cmp()
//@end

// ---- the stack hint ----
pub open spec fn kinds_ok(s: Seq<TreeNode>, m: St) -> bool { s.len() == m.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] is Internal <==> m[i] is None) }
//@fn ssz-multiproofs/src/multiproof.rs | calculate_max_stack_depth
//@reject !exists|data: Seq<u8>| #[trigger] valid(data, descriptor@)
//@begin
    let ghost data = choose|data: Seq<u8>| #[trigger] valid(data, descriptor@);
//@loop 0
        invariant
            kinds_ok(stack@, mrun(descriptor@.take(it.index@), data)),
            it.seq() == srefs(descriptor@),
//@loop-begin 0
        proof {
            let d = descriptor@; let k = it.index@;
            assert(d.take(k).push(d[k]) == d.take(k + 1));
            run_push(Seq::empty(), d.take(k), d[k], data, 0);
        }
//@loop 1
                invariant
                    exists|mm: St| kinds_ok(stack@, mm) && #[trigger] reduce(mm) == mrun(descriptor@.take(it.index@ + 1), data),
                decreases stack@.len()
//@loop-begin 1
                let ghost mm = choose|mm: St| kinds_ok(stack@, mm) && #[trigger] reduce(mm) == mrun(descriptor@.take(it.index@ + 1), data);
//@loop-end 1
                proof {
                    let n = mm.len() as int;
                    assert(mm[n-1] is Some && mm[n-2] is Some && mm[n-3] is None);
                    assert(reducible(mm));
                    assert(kinds_ok(stack@, reduce1(mm)));
                    assert(reduce(reduce1(mm)) == reduce(mm));
                }
//@loop-after 0
    proof {
        assert(descriptor@.take(descriptor@.len() as int) == descriptor@);
        if valid(data, descriptor@) { let t = choose|t: Tree| proves(t, data, descriptor@); machine_valid(t, data, descriptor@); }
    }
//@end

// ---- C04: the built proof ----
pub open spec fn chunk_of<T: Prove>(c: &T) -> spec_fn(nat) -> Seq<u8> { |g: nat| c.node(g)->0 }
/// the tree the proof of s in c has to spell
pub open spec fn built<T: Prove>(c: &T, s: Set<usize>) -> Tree { ptree(chunk_of(c), s, 1) }
pub open spec fn mask_of(s: Set<usize>, g: Seq<nat>) -> Seq<bool> { Seq::new(g.len(), |i: int| member(s, g[i])) }
/// the wanted nodes listed in order are the leaves of that tree
proof fn listed<T: Prove>(c: &T, s: Set<usize>, g: Seq<nat>)
    requires okset(s), ordered(g), forall|h: nat| #[trigger] g.contains(h) <==> wanted(s, h),
    ensures
        gidx(built(c, s), 1) == g, shape(g) == enc(built(c, s)), built(c, s) is Node,
        leaves(built(c, s)).len() == g.len(), forall|i: int| 0 <= i < g.len() ==> #[trigger] leaves(built(c, s))[i] == c.node(g[i])->0,
{
    let t = built(c, s);
    let a = choose|a: usize| s.contains(a);
    under_one(a as nat);
    assert(occ(s, 1) && strict(s, 1));
    tree_members(chunk_of(c), s, 1);
    assert forall|h: nat| #[trigger] gidx(t, 1).contains(h) <==> g.contains(h) by { if wanted(s, h) { wanted_some(s, h); under_one(h); } }
    assert forall|i: int| 0 <= i < gidx(t, 1).len() implies #[trigger] gidx(t, 1)[i] < two64() by { assert(gidx(t, 1).contains(gidx(t, 1)[i])); wanted_fits(s, gidx(t, 1)[i]); }
    gidx_ordered(t, 1);
    ordered_unique(gidx(t, 1), g);
    shape_tree(t, 1);
    assert(tz(1) == 0);
    assert(zeros(0) + enc(t) =~= enc(t));
    tree_leaves(chunk_of(c), s, 1);
}
proof fn wanted_some(s: Set<usize>, h: nat) requires antichain(s), wanted(s, h) ensures h > 1 { if member(s, h) { assert(s.contains(h as usize)); } }
/// a sequence of 32-byte chunks, flattened, has those chunks
proof fn sflat_chunks<A>(s: Seq<A>, p: spec_fn(A) -> Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] p(s[i]).len() == 32,
    ensures sflat(s, p).len() == 32 * s.len(), forall|i: int| 0 <= i < s.len() ==> chunk(sflat(s, p), i) == #[trigger] p(s[i]),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies #[trigger] p(d[i]).len() == 32 by { assert(d[i] == s[i]); }
        sflat_chunks(d, p);
        assert forall|i: int| 0 <= i < s.len() implies chunk(sflat(s, p), i) == #[trigger] p(s[i]) by {
            if i < d.len() { assert(d[i] == s[i]); assert(chunk(sflat(s, p), i) =~= chunk(sflat(d, p), i)); } else { assert(chunk(sflat(s, p), i) =~= p(s[i])); }
        }
    }
}
//@item ssz-multiproofs/src/builder.rs | struct | MultiproofBuilder
impl MultiproofBuilder {
//@fn ssz-multiproofs/src/builder.rs | MultiproofBuilder::new
//@ensures
        vr.gindices@ == Set::<usize>::empty(),
//@end
//@fn ssz-multiproofs/src/builder.rs | Default for MultiproofBuilder::default
//@ensures
        vr.gindices@ == Set::<usize>::empty(),
//@end
//@fn ssz-multiproofs/src/builder.rs | MultiproofBuilder::with_path
//@reject T::gindex_of(path) is None
//@ensures
        vr.gindices@ == self.gindices@.insert(T::gindex_of(path)->0),
//@end
//@fn ssz-multiproofs/src/builder.rs | MultiproofBuilder::with_gindex
//@ensures
        vr.gindices@ == self.gindices@.insert(gindex),
//@end
//@fn ssz-multiproofs/src/builder.rs | MultiproofBuilder::with_gindices
//@ensures
        vr.gindices@ == self.gindices@.union(gindices.vseq().to_set()),
//@end
//@fn ssz-multiproofs/src/builder.rs | MultiproofBuilder::build
//@reject !okset(self.gindices@)
//@ensures
        okset(self.gindices@) && vr is Ok ==> {
            let (m, t) = (vr->Ok_0, built(container, self.gindices@));
            &&& m.inv()
            &&& proves(t, m.data@, m.descriptor@)
            &&& m.data@.len() == 32 * leaves(t).len()
            &&& m.value_mask@ == mask_of(self.gindices@, gidx(t, 1))
        },
        okset(self.gindices@) ==> (vr is Ok <==> container.node(1) is Some && forall|h: nat| #[trigger] wanted(self.gindices@, h) ==> container.node(h) is Some),
//@begin
    broadcast use axiom_ascending;
    let ghost s = self.gindices@;
    proof { container.merkle(); }
//@after-let gindices
    proof { assert(gindices@.to_set() =~= s); assert(gindices@.no_duplicates()); }
//@after-let proof_indices
    let ghost g = nats(proof_indices@);
    proof {
        if okset(s) { listed(container, s, g); }
        if okset(s) { assert forall|i: int| 0 <= i < g.len() implies wanted(s, (#[trigger] proof_indices@[i]) as nat) by { assert(g.contains(g[i])); } }
    }
//@closure 0
        |$0: &usize| -> (r: Result<Node>)
            requires container.is_tree(tree)
            ensures match container.node(*$0 as nat) { Some(x) => r is Ok && r->Ok_0.d@ == x, None => r is Err }
//@after-let descriptor
    proof {
        if okset(s) {
            let p = |n: &Node| n.d@;
            let ns = srefs(nodes@);
            assert forall|i: int| 0 <= i < ns.len() implies #[trigger] p(ns[i]).len() == 32 by {}
            sflat_chunks(ns, p);
            assert forall|i: int| 0 <= i < g.len() implies container.node(#[trigger] g[i]) == Some(nodes@[i].d@) by { assert(g[i] == proof_indices@[i] as nat); }
            assert forall|h: nat| #[trigger] wanted(s, h) implies container.node(h) is Some by { assert(g.contains(h)); let i = choose|i: int| 0 <= i < g.len() && g[i] == h; assert(container.node(g[i]) is Some); }
            let t = built(container, s);
            assert forall|i: int| 0 <= i < leaves(t).len() implies #[trigger] leaves(t)[i] == chunk(sflat(ns, p), i) by { assert(leaves(t)[i] == container.node(g[i])->0); assert(p(ns[i]) == nodes@[i].d@); }
            assert(proves(built(container, s), sflat(ns, p), descriptor@));
            assert(valid(sflat(ns, p), descriptor@));
            enc_ones(t);
        }
    }
//@closure 1
        |$0: &Node| -> (r: &[u8]) ensures r@ == $0.d@
//@closure-ghost 1
|n: &Node| n.d@
//@after-let data
    proof {
        if okset(s) {
            assert(deref_seq(srefs(value_mask@)) =~= value_mask@);
            assert(value_mask@ =~= mask_of(s, g));
        }
    }
//@end
}

/// ... which verifies against the container's root
proof fn up<T: Prove>(c: &T, a: nat, g: nat) requires g >= 1, under(a, g), c.node(a) is Some ensures c.node(g) is Some, a != g ==> c.node(2 * g) is Some && c.node(2 * g + 1) is Some && c.node(g)->0 == sha256(c.node(2 * g)->0 + c.node(2 * g + 1)->0) decreases a
{
    c.merkle();
    if a != g {
        under_le(a / 2, g);
        let p = a / 2;
        assert(a == 2 * p || a == 2 * p + 1);
        assert(c.node(2 * p) is Some || c.node(2 * p + 1) is Some);
        assert(c.node(p) is Some);
        up(c, p, g);
    }
}
proof fn root_is<T: Prove>(c: &T, s: Set<usize>, g: nat)
    requires g >= 1, c.node(g) is Some, forall|a: usize| #[trigger] s.contains(a) ==> c.node(a as nat) is Some,
    ensures troot(ptree(chunk_of(c), s, g)) == c.node(g)->0,
    decreases room(g),
{
    if g < two64() && strict(s, g) {
        let a = choose|a: usize| s.contains(a) && a as nat != g && #[trigger] under(a as nat, g);
        up(c, a as nat, g);
        root_is(c, s, 2 * g); root_is(c, s, 2 * g + 1);
    }
}
/// C04: the proof built verifies against the root of the container
pub proof fn built_verifies<T: Prove>(c: &T, s: Set<usize>)
    requires okset(s), c.node(1) is Some, forall|h: nat| #[trigger] wanted(s, h) ==> c.node(h) is Some,
    ensures troot(built(c, s)) == c.node(1)->0,
{
    assert forall|a: usize| #[trigger] s.contains(a) implies c.node(a as nat) is Some by { assert(member(s, a as nat)); assert(wanted(s, a as nat)); }
    root_is(c, s, 1);
}
proof fn sfilter_map_pos<A, B>(a: Seq<A>, p: spec_fn(A) -> Option<B>, i: int, j: int) -> (r: (int, int))
    requires 0 <= i < j < sfilter_map(a, p).len(),
    ensures 0 <= r.0 < r.1 < a.len(), p(a[r.0]) == Some(sfilter_map(a, p)[i]), p(a[r.1]) == Some(sfilter_map(a, p)[j]),
    decreases a.len(),
{
    if p(a[0]) is Some {
        if i == 0 { let k = sfilter_map_from(a.skip(1), p, j - 1); (0, k + 1) } else { let k = sfilter_map_pos(a.skip(1), p, i - 1, j - 1); (k.0 + 1, k.1 + 1) }
    } else { let k = sfilter_map_pos(a.skip(1), p, i, j); (k.0 + 1, k.1 + 1) }
}
proof fn sfilter_map_has<A, B>(a: Seq<A>, p: spec_fn(A) -> Option<B>, k: int) -> (i: int)
    requires 0 <= k < a.len(), p(a[k]) is Some,
    ensures 0 <= i < sfilter_map(a, p).len(), sfilter_map(a, p)[i] == p(a[k])->0,
    decreases a.len(),
{
    if k == 0 { 0 } else { let i = sfilter_map_has(a.skip(1), p, k - 1); if p(a[0]) is Some { i + 1 } else { i } }
}
/// C04: the values are the requested indices, each once, left to right, with the container's chunk
pub proof fn built_values<T: Prove>(c: &T, s: Set<usize>, m: &Multiproof<'_>)
    requires
        okset(s), proves(built(c, s), m.data@, m.descriptor@), m.data@.len() == 32 * leaves(built(c, s)).len(),
        m.value_mask@ == mask_of(s, gidx(built(c, s), 1)), forall|h: nat| #[trigger] wanted(s, h) ==> c.node(h) is Some,
    ensures
        !node_poison(m.descriptor@, m.data@),
        forall|i: int| 0 <= i < value_seq(m).len() ==> s.contains((#[trigger] value_seq(m)[i]).0 as usize) && value_seq(m)[i].1@ == c.node(value_seq(m)[i].0 as nat)->0,
        forall|a: usize| #[trigger] s.contains(a) ==> exists|i: int| 0 <= i < value_seq(m).len() && (#[trigger] value_seq(m)[i]).0 == a as u64,
        forall|i: int, j: int| 0 <= i < j < value_seq(m).len() ==> before((#[trigger] value_seq(m)[i]).0 as nat, (#[trigger] value_seq(m)[j]).0 as nat),
{
    broadcast use axiom_arr32;
    let t = built(c, s);
    let g = gidx(t, 1);
    let n = node_seq(m.descriptor@, m.data@);
    c.merkle();
    let a0 = choose|a: usize| s.contains(a);
    under_one(a0 as nat);
    assert(occ(s, 1));
    tree_members(chunk_of(c), s, 1);
    tree_leaves(chunk_of(c), s, 1);
    gidx_len(t, 1);
    assert forall|i: int| 0 <= i < g.len() implies #[trigger] g[i] < two64() && wanted(s, g[i]) by { assert(g.contains(g[i])); wanted_fits(s, g[i]); }
    assert(fits(t, 1));
    gidx_ordered(t, 1);
    nodes_of_tree(t, m.descriptor@, m.data@);
    assert(n.len() == g.len());
    let z = szip(n, srefs(m.value_mask@));
    let p = |x: (Item<'_>, &bool)| masked(x);
    assert(z.len() == g.len());
    assert forall|k: int| 0 <= k < z.len() implies p(#[trigger] z[k]) == if member(s, g[k]) { Some((g[k] as u64, arr32(c.node(g[k])->0))) } else { None } by {
        assert(leaves(t)[k] == chunk(m.data@, k));
        assert(n[k].0 as nat == g[k]);
    }
    assert forall|i: int| 0 <= i < value_seq(m).len() implies s.contains((#[trigger] value_seq(m)[i]).0 as usize) && value_seq(m)[i].1@ == c.node(value_seq(m)[i].0 as nat)->0 by {
        let k = sfilter_map_from(z, p, i);
        assert(p(z[k]) is Some);
    }
    assert forall|a: usize| #[trigger] s.contains(a) implies exists|i: int| 0 <= i < value_seq(m).len() && (#[trigger] value_seq(m)[i]).0 == a as u64 by {
        assert(member(s, a as nat)); under_one(a as nat); assert(g.contains(a as nat));
        let k = choose|k: int| 0 <= k < g.len() && g[k] == a as nat;
        assert(p(z[k]) is Some);
        let i = sfilter_map_has(z, p, k);
        assert(value_seq(m)[i].0 == a as u64);
    }
    assert forall|i: int, j: int| 0 <= i < j < value_seq(m).len() implies before((#[trigger] value_seq(m)[i]).0 as nat, (#[trigger] value_seq(m)[j]).0 as nat) by {
        let (x, y) = sfilter_map_pos(z, p, i, j);
        assert(p(z[x]) is Some && p(z[y]) is Some);
        assert(before(g[x], g[y]));
    }
}
} // verus!
