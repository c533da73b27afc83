// Preflight: recording what was queried and building the guest input (host/src/input_reader/preflight_input_reader.rs).
verus! {
// ---- std::cell::RefCell, its `&self` methods made `&mut self` (and so the callers'); borrowing twice at once is
// a compile error here and a panic there ----
pub struct RefCell<T> { pub v: T }
impl<T: VDefault> RefCell<T> {
    #[verifier::external_body]
    pub fn take(&mut self) -> (r: T) ensures r == old(self).v, final(self).v == T::default_s() { unimplemented!() }
}
impl<T> RefCell<T> {
    pub fn borrow(&self) -> (r: &T) ensures *r == self.v { &self.v }
    pub fn borrow_mut(&mut self) -> (r: &mut T) ensures *r == old(self).v, final(self).v == *final(r) { &mut self.v }
}
impl<T: VDefault> VDefault for RefCell<T> { open spec fn default_s() -> Self { RefCell { v: T::default_s() } } fn vdefault() -> (r: Self) { RefCell { v: T::vdefault() } } }

// ---- cloning a set or map of plain values gives an equal one ----
impl<K: Copy> Clone for BTreeSet<K> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<K: Copy> Clone for BTreeMap<K, BTreeSet<u32>> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

// ---- sets and maps by other keys than positions: the order of their elements is not modelled ----
pub trait VElem {}
impl VElem for Epoch {}
impl VElem for u32 {}
impl VElem for B256 {}
impl<K> VDefault for BTreeSet<K> { uninterp spec fn default_s() -> Self;
    #[verifier::external_body]
    fn vdefault() -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
pub broadcast proof fn axiom_empty_set<K>() ensures #[trigger] BTreeSet::<K>::default_s()@ == Set::<K>::empty() {}
impl<K, V> VDefault for BTreeMap<K, V> { uninterp spec fn default_s() -> Self;
    #[verifier::external_body]
    fn vdefault() -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
pub broadcast proof fn axiom_empty_map<K, V>() ensures #[trigger] BTreeMap::<K, V>::default_s()@ == Seq::<(K, V)>::empty() {}
pub uninterp spec fn elems<K>(s: Set<K>) -> Seq<K>;
#[verifier::external_body]
pub broadcast proof fn axiom_elems<K>(s: BTreeSet<K>)
    ensures
        #![trigger elems(s@)]
        elems(s@).no_duplicates(),
        forall|x: K| #[trigger] s@.contains(x) <==> elems(s@).contains(x),
{}
pub trait VSetOps<K> { spec fn set_s(&self) -> Set<K>;
    fn insert(&mut self, k: K) -> (r: bool) ensures final(self).set_s() == old(self).set_s().insert(k), r == !old(self).set_s().contains(k);
    fn vf_iter<'a>(&'a self) -> (r: VIter<&'a K>) where K: 'a ensures r@ == srefs(elems(self.set_s())); }
impl<K: VElem> VSetOps<K> for BTreeSet<K> { open spec fn set_s(&self) -> Set<K> { self@ }
    #[verifier::external_body]
    fn insert(&mut self, k: K) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vf_iter<'a>(&'a self) -> (r: VIter<&'a K>) where K: 'a { unimplemented!() } }
impl<K: VElem> VIntoIter for BTreeSet<K> { type Item = K; open spec fn vseq(self) -> Seq<K> { elems(self@) }
    #[verifier::external_body]
    fn vf_into_iter(self) -> (r: VIter<K>) { unimplemented!() } }
impl<K, V> VIntoIter for BTreeMap<K, V> { type Item = (K, V); open spec fn vseq(self) -> Seq<(K, V)> { self@ }
    #[verifier::external_body]
    fn vf_into_iter(self) -> (r: VIter<(K, V)>) { unimplemented!() } }
pub open spec fn one_each<K, V>(s: Seq<(K, V)>) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
/// a map has one entry for each of its keys
#[verifier::external_body]
pub proof fn axiom_one_each<K, V>(m: BTreeMap<K, V>) ensures one_each(m@) {}
pub proof fn found_at<K, V>(s: Seq<(K, V)>, i: int)
    requires one_each(s), 0 <= i < s.len(),
    ensures lookup(s, s[i].0) == Some(s[i].1),
{ reveal(lookup); let k = s[i].0; let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == k; assert(s[i].0 == k); assert(j == i); }
pub proof fn found_where<K, V>(s: Seq<(K, V)>, k: K)
    ensures lookup(s, k) is Some <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k, lookup(s, k) is Some ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == (k, lookup(s, k)->0),
{ reveal(lookup); if lookup(s, k) is Some { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k; assert(s[i] == (k, lookup(s, k)->0)); } }
impl<K: VElem, V> BTreeMap<K, V> {
    /// entry(k).or_insert(v)
    #[verifier::external_body]
    pub fn vf_entry_or_insert(&mut self, k: K, v: V) -> (r: &mut V)
        ensures
            *r == (match lookup(old(self)@, k) { Some(x) => x, None => v }),
            forall|j: K| #[trigger] lookup(final(self)@, j) == if j == k { Some(*final(r)) } else { lookup(old(self)@, j) },
    { unimplemented!() }
    /// entry(k).or_default()
    #[verifier::external_body]
    pub fn vf_entry_or_default(&mut self, k: K) -> (r: &mut V) where V: VDefault
        ensures
            *r == (match lookup(old(self)@, k) { Some(x) => x, None => V::default_s() }),
            forall|j: K| #[trigger] lookup(final(self)@, j) == if j == k { Some(*final(r)) } else { lookup(old(self)@, j) },
    { unimplemented!() }
}
impl<V> VFromIter<(Epoch, V)> for BTreeMap<Epoch, V> {
    open spec fn collected(s: Seq<(Epoch, V)>, r: BTreeMap<Epoch, V>) -> bool { one_each(s) ==> forall|k: Epoch| #[trigger] lookup(r@, k) == lookup(s, k) }
    #[verifier::external_body]
    fn vf_from_iter(it: VIter<(Epoch, V)>) -> (r: BTreeMap<Epoch, V>) { unimplemented!() }
}

// ---- errors ----
pub trait VErr {}
impl VErr for StateProviderError {}
impl VErr for HostReaderError {}
impl<T: VErr> From<T> for AnyError {
    #[verifier::external_body]
    fn from(e: T) -> Self { unimplemented!() }
}

// ---- ssz_rs and the multiproof builder. What `build` guarantees is C04 ----
pub enum PathElement { Field(&'static str), Index(usize), Length }
impl VFrom<&'static str> for PathElement { open spec fn from_spec(t: &'static str) -> Self { PathElement::Field(t) } fn vfrom(t: &'static str) -> (r: Self) { PathElement::Field(t) } }
impl VFrom<usize> for PathElement { open spec fn from_spec(t: usize) -> Self { PathElement::Index(t) } fn vfrom(t: usize) -> (r: Self) { PathElement::Index(t) } }
/// the generalized index of a path in the tree of T
pub uninterp spec fn gi1<T>(a: PathElement) -> int;
pub uninterp spec fn gi2<T>(a: PathElement, b: PathElement) -> int;
pub uninterp spec fn gi3<T>(a: PathElement, b: PathElement, c: PathElement) -> int;
pub uninterp spec fn gi_else<T>(p: Seq<PathElement>) -> int;
pub open spec fn gi<T>(p: Seq<PathElement>) -> int { if p.len() == 1 { gi1::<T>(p[0]) } else if p.len() == 2 { gi2::<T>(p[0], p[1]) } else if p.len() == 3 { gi3::<T>(p[0], p[1], p[2]) } else { gi_else::<T>(p) } }
pub open spec fn f(n: &'static str) -> PathElement { PathElement::Field(n) }
pub open spec fn x(i: int) -> PathElement { PathElement::Index(i as usize) }
pub trait GeneralizedIndexable {}
impl<T> GeneralizedIndexable for T {}
pub trait Prove { spec fn root_s(&self) -> Option<Root>;
    fn hash_tree_root(&self) -> (r: Result<Root, AnyError>) ensures match self.root_s() { Some(x) => r is Ok && r->Ok_0 == x, None => r is Err }; }
pub uninterp spec fn registry_root(v: Seq<Validator>) -> Option<Root>;
impl Prove for Vec<Validator> { open spec fn root_s(&self) -> Option<Root> { registry_root(self@) }
    #[verifier::external_body]
    fn hash_tree_root(&self) -> (r: Result<Root, AnyError>) { unimplemented!() } }
impl Prove for BeaconBlockHeader { open spec fn root_s(&self) -> Option<Root> { header_root_s(*self) }
    #[verifier::external_body]
    fn hash_tree_root(&self) -> (r: Result<Root, AnyError>) { unimplemented!() } }
#[verifier::external_body]
pub struct ElectraState { x: u8 }
#[verifier::external_body]
pub struct FuluState { x: u8 }
pub uninterp spec fn electra_root(s: ElectraState) -> Option<Root>;
pub uninterp spec fn fulu_root(s: FuluState) -> Option<Root>;
impl Prove for ElectraState { open spec fn root_s(&self) -> Option<Root> { electra_root(*self) }
    #[verifier::external_body]
    fn hash_tree_root(&self) -> (r: Result<Root, AnyError>) { unimplemented!() } }
impl Prove for FuluState { open spec fn root_s(&self) -> Option<Root> { fulu_root(*self) }
    #[verifier::external_body]
    fn hash_tree_root(&self) -> (r: Result<Root, AnyError>) { unimplemented!() } }
/// the state by format; each carries the root of the whole
pub enum Versioned<'a> { Electra(&'a ElectraState), Fulu(&'a FuluState), Other }
impl StateRef {
    #[verifier::external_body]
    pub fn vf_deref(&self) -> (r: Versioned<'_>)
        ensures r is Electra ==> r->Electra_0.root_s() == state_root_s(self.s), r is Fulu ==> r->Fulu_0.root_s() == state_root_s(self.s)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn version(&self) -> u64 { unimplemented!() }
}
#[verifier::external_body]
pub struct MultiproofBuilder { x: u8 }
#[verifier::external_body]
pub struct Multiproof<'a> { x: &'a u8 }
/// the generalized indices a proof has values for, and the root it leads to
pub uninterp spec fn nodes_of(p: Multiproof<'_>) -> Set<int>;
pub uninterp spec fn leads_to(p: Multiproof<'_>) -> Option<Root>;
impl MultiproofBuilder {
    pub uninterp spec fn want(&self) -> Set<int>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.want() == Set::<int>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_path<T>(self, p: &[PathElement]) -> (r: Self) ensures r.want() == self.want().insert(gi::<T>(p@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn build<T: Prove>(self, v: &T) -> (r: Result<Multiproof<'static>, AnyError>) ensures r is Ok ==> nodes_of(r->Ok_0) == self.want() && leads_to(r->Ok_0) == v.root_s() { unimplemented!() }
}
impl<'a> Multiproof<'a> {
    #[verifier::external_body]
    pub fn verify(&self, root: &Root) -> (r: Result<(), AnyError>) ensures r is Ok ==> leads_to(*self) == Some(*root) { unimplemented!() }
}

// ---- values copied ----
impl Clone for PublicKey {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<'a, E: EthSpec> VIter<&'a Attestation<E>> {
    #[verifier::external_body]
    pub fn vf_cloned(self) -> (r: VIter<Attestation<E>>) ensures r@ == deref_seq(self@) { unimplemented!() }
}

// ---- C27 ----
#[verifier::reject_recursive_types(E)]
//@item core/src/input_reader/guest_input_reader.rs | struct | GuestInput
//@item host/src/input_reader/preflight_input_reader.rs | struct | PreflightInputReader
pub open spec fn state_nodes<T>() -> Set<int> {
    set![
        gi1::<T>(f("genesis_validators_root")), gi1::<T>(f("slot")), gi2::<T>(f("fork"), f("previous_version")), gi2::<T>(f("fork"), f("current_version")), gi2::<T>(f("fork"), f("epoch")),
        gi1::<T>(f("validators")), gi2::<T>(f("finalized_checkpoint"), f("epoch")), gi1::<T>(f("earliest_exit_epoch")), gi1::<T>(f("earliest_consolidation_epoch"))
    ]
}
pub open spec fn registry_nodes(reg: Seq<Validator>, t: Epoch, n: int) -> Set<int> decreases n {
    if n <= 0 { set![gi1::<Vec<Validator>>(PathElement::Length)] } else {
        let i = n - 1;
        let p = registry_nodes(reg, t, i).insert(gi2::<Vec<Validator>>(x(i), f("exit_epoch")));
        if reg[i].exit_epoch <= t.v { p } else {
            p.insert(gi3::<Vec<Validator>>(x(i), f("public_key"), x(0))).insert(gi3::<Vec<Validator>>(x(i), f("public_key"), x(47)))
                .insert(gi2::<Vec<Validator>>(x(i), f("effective_balance"))).insert(gi2::<Vec<Validator>>(x(i), f("slashed")))
                .insert(gi2::<Vec<Validator>>(x(i), f("activation_eligibility_epoch"))).insert(gi2::<Vec<Validator>>(x(i), f("activation_epoch")))
        }
    }
}
pub open spec fn registry_keys(reg: Seq<Validator>, t: Epoch, n: int) -> Seq<PublicKey> decreases n {
    if n <= 0 { Seq::empty() } else if reg[n - 1].exit_epoch <= t.v { registry_keys(reg, t, n - 1) } else { registry_keys(reg, t, n - 1).push(key_of(reg[n - 1].public_key)->0) }
}
/// the active set of the reader carries the keys of the registry
pub open spec fn same_keys(a: Seq<(usize, ValidatorInfo)>, reg: Seq<Validator>) -> bool { forall|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 < reg.len() ==> key_of(reg[a[i].0 as int].public_key) == Some(a[i].1.pubkey) }
/// a patch of an epoch with the mixes q, and if cmp the exits that differ from the registry
pub open spec fn patch_is<P: StateSource>(p: P, s: BeaconState, m: StatePatch, e: Epoch, q: Set<u32>, cmp: bool, reg: Seq<Validator>) -> bool {
    &&& p.gives(epoch_slot::<P>(e), s)
    &&& forall|j: u32| #[trigger] lookup(m.randao_mixes@, j) == if q.contains(j) { Some(b256_of(mixes_of(s)[j as int].b@)) } else { None }
    &&& forall|j: u32| #[trigger] q.contains(j) ==> j < mixes_of(s).len()
    &&& forall|i: usize| #[trigger] lookup(m.validator_exits@, i) == if cmp && i < registry_of(s).len() && i < reg.len() && registry_of(s)[i as int].exit_epoch != reg[i as int].exit_epoch { Some(Epoch { v: registry_of(s)[i as int].exit_epoch }) } else { None }
}
pub open spec fn patched<P: StateSource>(p: P, m: StatePatch, e: Epoch, q: Set<u32>, cmp: bool, reg: Seq<Validator>) -> bool { exists|s: BeaconState| #[trigger] patch_is(p, s, m, e, q, cmp, reg) }
pub open spec fn asked(m: Seq<(Epoch, BTreeSet<u32>)>, e: Epoch) -> Set<u32> { match lookup(m, e) { Some(s) => s@, None => Set::empty() } }
/// the builders of the epochs so far: those of the mix queries, those of `done`
pub open spec fn building<P: StateSource>(p: P, b: Seq<(Epoch, StatePatchBuilder)>, m: Seq<(Epoch, BTreeSet<u32>)>, done: Set<Epoch>, reg: Seq<Validator>) -> bool {
    forall|e: Epoch| match #[trigger] lookup(b, e) {
        Some(x) => (lookup(m, e) is Some || done.contains(e)) && patch_is(p, x.state.s, x.patch, e, asked(m, e), done.contains(e), reg),
        None => lookup(m, e) is None && !done.contains(e),
    }
}
pub open spec fn patches_are<P: StateSource>(p: P, r: Seq<(Epoch, StatePatch)>, m: Seq<(Epoch, BTreeSet<u32>)>, cmp: Set<Epoch>, reg: Seq<Validator>) -> bool {
    forall|e: Epoch| match #[trigger] lookup(r, e) {
        Some(x) => (lookup(m, e) is Some || cmp.contains(e)) && patched(p, x, e, asked(m, e), cmp.contains(e), reg),
        None => lookup(m, e) is None && !cmp.contains(e),
    }
}
pub open spec fn slot_proof<CR: ChainReader>(cr: CR, root: Root, p: Multiproof<'_>) -> bool {
    &&& leads_to(p) == Some(root) && nodes_of(p) =~= set![gi1::<BeaconBlockHeader>(f("slot"))]
    &&& exists|h: SignedBeaconBlockHeader| #[trigger] cr.heads(shown_root(root), Some(h))
}
/// C27
pub open spec fn preflighted<E: EthSpec, S: InputReader<Spec = E> + StateProvider<Spec = E>, CR: ChainReader>(p: PreflightInputReader<'_, S, CR>, r: GuestInput<'_, E>) -> bool {
    let t = p.trusted_checkpoint.0.epoch;
    &&& exists|s: BeaconState| #[trigger] block_root_of(s) == Some(p.trusted_checkpoint.r()) && {
        &&& boundary_state(*p.inner, t, s)
        &&& leads_to(r.beacon_block) == Some(p.trusted_checkpoint.r()) && nodes_of(r.beacon_block) =~= set![gi1::<BeaconBlockHeader>(f("state_root"))]
        &&& leads_to(r.beacon_state) == state_root_s(s) && (nodes_of(r.beacon_state) =~= state_nodes::<ElectraState>() || nodes_of(r.beacon_state) =~= state_nodes::<FuluState>())
        &&& leads_to(r.active_validators) == registry_root(registry_of(s)) && nodes_of(r.active_validators) =~= registry_nodes(registry_of(s), t, registry_of(s).len() as int)
        &&& r.public_keys@ =~= registry_keys(registry_of(s), t, registry_of(s).len() as int)
        &&& patches_are(*p.inner, r.patches@, p.mix_epochs.v@, p.validator_epochs.v@.remove(t), registry_of(s))
    }
    &&& p.inner.s_state() == Some(r.consensus_state)
    &&& p.inner.s_atts() is Some && r.attestations@ =~= p.inner.s_atts()->0
    &&& forall|i: int| 0 <= i < r.block_slot_proofs@.len() ==> leads_to(#[trigger] r.block_slot_proofs@[i]) is Some && p.beacon_block_reads.v@.contains(leads_to(r.block_slot_proofs@[i])->0) && slot_proof(p.chain_reader, leads_to(r.block_slot_proofs@[i])->0, r.block_slot_proofs@[i])
    &&& forall|root: Root| p.beacon_block_reads.v@.contains(root) ==> exists|i: int| 0 <= i < r.block_slot_proofs@.len() && leads_to(#[trigger] r.block_slot_proofs@[i]) == Some(root)
}
//@fn host/src/input_reader/preflight_input_reader.rs | build_state_multiproof
//@ensures
        vr is Ok ==> nodes_of(vr->Ok_0) =~= state_nodes::<T>() && leads_to(vr->Ok_0) == state.root_s(),
//@end
pub proof fn took<A>(s: Seq<A>, k: int)
    requires 0 <= k < s.len(),
    ensures forall|x: A| #[trigger] s.take(k + 1).contains(x) <==> s.take(k).contains(x) || x == s[k],
{
    assert(s.take(k + 1) =~= s.take(k).push(s[k]));
    assert forall|x: A| #[trigger] s.take(k + 1).contains(x) <==> s.take(k).contains(x) || x == s[k] by {
        if s.take(k).contains(x) { let i = choose|i: int| 0 <= i < k && #[trigger] s.take(k)[i] == x; assert(s.take(k + 1)[i] == x); }
        if x == s[k] { assert(s.take(k + 1)[k] == x); }
        if s.take(k + 1).contains(x) { let i = choose|i: int| 0 <= i < k + 1 && #[trigger] s.take(k + 1)[i] == x; if i < k { assert(s.take(k)[i] == x); } }
    }
}
pub proof fn not_before<A>(s: Seq<A>, k: int)
    requires 0 <= k < s.len(), s.no_duplicates(),
    ensures !s.take(k).contains(s[k]),
{ if s.take(k).contains(s[k]) { let i = choose|i: int| 0 <= i < k && #[trigger] s.take(k)[i] == s[k]; assert(s[i] == s[k]); } }
pub proof fn take_step<K, V>(m: Seq<(K, V)>, k: int)
    requires one_each(m), 0 <= k < m.len(),
    ensures
        lookup(m.take(k), m[k].0) is None,
        forall|e: K| #[trigger] lookup(m.take(k + 1), e) == if e == m[k].0 { Some(m[k].1) } else { lookup(m.take(k), e) },
{
    let (a, b) = (m.take(k), m.take(k + 1));
    found_where(a, m[k].0);
    if lookup(a, m[k].0) is Some { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == m[k].0; assert(m[i].0 != m[k].0); }
    assert(one_each(b)) by { assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && i != j implies (#[trigger] b[i]).0 != (#[trigger] b[j]).0 by { assert(m[i].0 != m[j].0); } }
    assert(one_each(a)) by { assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies (#[trigger] a[i]).0 != (#[trigger] a[j]).0 by { assert(m[i].0 != m[j].0); } }
    assert forall|e: K| #[trigger] lookup(b, e) == if e == m[k].0 { Some(m[k].1) } else { lookup(a, e) } by {
        found_where(b, e); found_where(a, e);
        if e == m[k].0 { assert(b[k] == m[k]); found_at(b, k); } else {
            if lookup(a, e) is Some { let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i] == (e, lookup(a, e)->0); assert(b[i] == a[i]); found_at(b, i); }
            else if lookup(b, e) is Some { let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i] == (e, lookup(b, e)->0); assert(i < k); assert(a[i] == b[i]); assert(a[i].0 == e); }
        }
    }
}
pub proof fn built_mixes<P: StateSource>(p: P, b0: Seq<(Epoch, StatePatchBuilder)>, b1: Seq<(Epoch, StatePatchBuilder)>, m: Seq<(Epoch, BTreeSet<u32>)>, k: int, x: StatePatchBuilder, reg: Seq<Validator>)
    requires
        one_each(m), 0 <= k < m.len(), building(p, b0, m.take(k), Set::empty(), reg),
        forall|j: Epoch| #[trigger] lookup(b1, j) == if j == m[k].0 { Some(x) } else { lookup(b0, j) },
        patch_is(p, x.state.s, x.patch, m[k].0, m[k].1@, false, reg),
    ensures building(p, b1, m.take(k + 1), Set::empty(), reg),
{
    take_step(m, k);
    assert forall|e: Epoch| match #[trigger] lookup(b1, e) {
        Some(x) => (lookup(m.take(k + 1), e) is Some || Set::<Epoch>::empty().contains(e)) && patch_is(p, x.state.s, x.patch, e, asked(m.take(k + 1), e), Set::<Epoch>::empty().contains(e), reg),
        None => lookup(m.take(k + 1), e) is None && !Set::<Epoch>::empty().contains(e),
    } by { assert(lookup(b0, e) is Some || lookup(b0, e) is None); }
}
/// the builder after the comparison of epoch e
pub proof fn built_exits<P: StateSource>(p: P, b0: Seq<(Epoch, StatePatchBuilder)>, b1: Seq<(Epoch, StatePatchBuilder)>, m: Seq<(Epoch, BTreeSet<u32>)>, done: Set<Epoch>, e: Epoch, x0: StatePatchBuilder, reg: Seq<Validator>)
    requires
        building(p, b0, m, done, reg), !done.contains(e), reg.len() <= usize::MAX, lookup(b1, e) is Some,
        lookup(b0, e) is Some ==> x0 == lookup(b0, e)->0,
        lookup(b0, e) is None ==> patch_is(p, x0.state.s, x0.patch, e, Set::empty(), false, reg),
        forall|j: Epoch| j != e ==> #[trigger] lookup(b1, j) == lookup(b0, j),
        lookup(b1, e)->0.state == x0.state, lookup(b1, e)->0.patch.randao_mixes@ == x0.patch.randao_mixes@,
        diff_upto(x0.patch.validator_exits@, lookup(b1, e)->0.patch.validator_exits@, registry_of(x0.state.s), srefs(reg), min_i(registry_of(x0.state.s).len() as int, reg.len() as int)),
    ensures building(p, b1, m, done.insert(e), reg),
{
    let x = lookup(b1, e)->0;
    let r0 = registry_of(x0.state.s);
    assert(lookup(b0, e) is Some || lookup(b0, e) is None);
    assert(patch_is(p, x0.state.s, x0.patch, e, asked(m, e), false, reg));
    assert forall|i: usize| #[trigger] lookup(x.patch.validator_exits@, i) == if i < r0.len() && i < reg.len() && r0[i as int].exit_epoch != reg[i as int].exit_epoch { Some(Epoch { v: r0[i as int].exit_epoch }) } else { None } by {
        assert(lookup(x0.patch.validator_exits@, i) is None);
        if i < reg.len() { assert(*srefs(reg)[i as int] == reg[i as int]); }
    }
    assert(patch_is(p, x.state.s, x.patch, e, asked(m, e), true, reg));
    assert forall|j: Epoch| match #[trigger] lookup(b1, j) {
        Some(y) => (lookup(m, j) is Some || done.insert(e).contains(j)) && patch_is(p, y.state.s, y.patch, j, asked(m, j), done.insert(e).contains(j), reg),
        None => lookup(m, j) is None && !done.insert(e).contains(j),
    } by { if j != e { assert(lookup(b1, j) == lookup(b0, j)); } }
}
pub open spec fn only_patches(b: Seq<(Epoch, StatePatchBuilder)>, s: Seq<(Epoch, StatePatch)>) -> bool { s.len() == b.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == (b[i].0, b[i].1.patch) }
pub proof fn built_patches(b: Seq<(Epoch, StatePatchBuilder)>, s: Seq<(Epoch, StatePatch)>)
    requires one_each(b), only_patches(b, s),
    ensures one_each(s), forall|e: Epoch| #[trigger] lookup(s, e) == (match lookup(b, e) { Some(x) => Some(x.patch), None => None }),
{
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies (#[trigger] s[i]).0 != (#[trigger] s[j]).0 by { assert(b[i].0 != b[j].0); }
    assert forall|e: Epoch| #[trigger] lookup(s, e) == (match lookup(b, e) { Some(x) => Some(x.patch), None => None }) by {
        found_where(b, e); found_where(s, e);
        if lookup(b, e) is Some { let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i] == (e, lookup(b, e)->0); assert(s[i] == (b[i].0, b[i].1.patch)); found_at(s, i); }
        else if lookup(s, e) is Some { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == (e, lookup(s, e)->0); assert(b[i].0 == e); }
    }
}
impl<'a, E: EthSpec, S: InputReader<Spec = E> + StateProvider<Spec = E>, CR: ChainReader> PreflightInputReader<'a, S, CR>
    where <S as InputReader>::Error: VErr,
{
    pub open spec fn pwf(&self) -> bool { self.inner.s_wf() && self.inner.source_wf() }
    /// the epochs other than the trusted one whose validators were queried
    pub open spec fn compared(&self) -> Set<Epoch> { self.validator_epochs.v@.remove(self.trusted_checkpoint.0.epoch) }
//@fn host/src/input_reader/preflight_input_reader.rs | PreflightInputReader::new
//@ensures
        *vr.inner == *reader, vr.chain_reader == chain_reader, vr.trusted_checkpoint == trusted_checkpoint,
        vr.validator_epochs.v@ == Set::<Epoch>::empty(), vr.mix_epochs.v@ == Seq::<(Epoch, BTreeSet<u32>)>::empty(), vr.beacon_block_reads.v@ == Set::<Root>::empty(),
//@begin
        broadcast use {axiom_empty_set, axiom_empty_map};
//@end
//@fn host/src/input_reader/preflight_input_reader.rs | PreflightInputReader::patch_builder
//@requires
        self.pwf(),
//@ensures
        vr is Ok ==> self.inner.gives(epoch_slot::<S>(epoch), vr->Ok_0.state.s) && vr->Ok_0.patch.randao_mixes@ == Seq::<(u32, B256)>::empty() && vr->Ok_0.patch.validator_exits@ == Seq::<(usize, Epoch)>::empty(),
//@end
//@fn host/src/input_reader/preflight_input_reader.rs | PreflightInputReader::to_input | {"self_as_mut": true, "for_wrap": "vf_into_iter", "methods": {"map": "map_each"}}
//@reject true
//@requires
        old(self).pwf(),
        // the reader's keys are those of the trusted registry
        forall|s: BeaconState| #[trigger] block_root_of(s) == Some(old(self).trusted_checkpoint.r()) && boundary_state(*old(self).inner, old(self).trusted_checkpoint.0.epoch, s) && old(self).inner.s_active(old(self).trusted_checkpoint.0.epoch) is Some ==> same_keys(old(self).inner.s_active(old(self).trusted_checkpoint.0.epoch)->0, registry_of(s)),
//@ensures
        vr is Ok ==> preflighted(*old(self), vr->Ok_0),
        // what was queried stays recorded, whether or not there is an input
        *final(self) == *old(self),
//@begin
        broadcast use {axiom_empty_set, axiom_empty_map, lookup_empty};
        let ghost old_self = *self;
        let ghost t = self.trusted_checkpoint.0.epoch;
        let ghost mixed = self.mix_epochs.v@;
        let ghost looked = self.validator_epochs.v@;
        let ghost lookset = self.validator_epochs.v;
        proof { axiom_one_each(self.mix_epochs.v); }
//@after-let beacon_state_root
        let ghost ts = trusted_state.s;
        let ghost reg = registry_of(ts);
//@closure 0
        |$0: (Epoch, StatePatchBuilder)| -> (r: (Epoch, StatePatch)) ensures r == ($0.0, $0.1.patch)
//@closure 1
        |$0: &Root| -> (r: Result<Multiproof<'static>, AnyError>) ensures r is Ok ==> slot_proof(self.chain_reader, *$0, r->Ok_0)
//@loop 0
            invariant
                trusted_epoch == t, trusted_state.s == ts, reg == registry_of(ts), it.seq() == senum(srefs(reg)), it.seq().len() <= usize::MAX,
                forall|j: int| 0 <= j < active_validators@.len() && (#[trigger] active_validators@[j]).0 < reg.len() ==> key_of(reg[active_validators@[j].0 as int].public_key) == Some(active_validators@[j].1.pubkey),
                proof_builder.want() =~= registry_nodes(reg, t, it.index@),
                public_keys@ =~= registry_keys(reg, t, it.index@),
//@after-let patch_builder
        proof { assert(mixed.take(0) =~= Seq::<(Epoch, BTreeSet<u32>)>::empty()); assert(building(*self.inner, patch_builder@, mixed.take(0), Set::empty(), reg)); }
//@loop 1
            invariant
                reg == registry_of(ts), old_self.pwf(), self.inner == old_self.inner, self.chain_reader == old_self.chain_reader, self.trusted_checkpoint == old_self.trusted_checkpoint, self.beacon_block_reads == old_self.beacon_block_reads, self.validator_epochs == old_self.validator_epochs, self.mix_epochs == old_self.mix_epochs,
                it.seq() == mixed, one_each(mixed),
                building(*self.inner, patch_builder@, mixed.take(it.index@), Set::empty(), reg),
//@loop-begin 1
            let ghost k = it.index@;
            let ghost before = patch_builder@;
            let ghost mut got: StatePatchBuilder = arbitrary();
            proof { take_step(mixed, k); axiom_elems(mixed[k].1); }
//@after-let patch
            let ghost patch0 = *patch;
            proof { got = *patch; }
            proof {
                assert(lookup(before, epoch) is None ==> patch0.patch.randao_mixes@ == Seq::<(u32, B256)>::empty() && patch0.patch.validator_exits@ == Seq::<(usize, Epoch)>::empty() && self.inner.gives(epoch_slot::<S>(epoch), patch0.state.s));
                assert(lookup(before, epoch) is Some ==> patch0 == lookup(before, epoch)->0);
                broadcast use lookup_empty;
                assert(lookup(before, epoch) is None ==> patch_is(*self.inner, patch0.state.s, patch0.patch, epoch, Set::empty(), false, reg));
            }
//@loop 2
                invariant
                    reg == registry_of(ts), 0 <= k < mixed.len(), it.seq() == elems(mixed[k].1@), self.inner == old_self.inner,
                    patch.state == patch0.state, self.inner.gives(epoch_slot::<S>(mixed[k].0), patch.state.s),
                    patch.patch.validator_exits@ == patch0.patch.validator_exits@,
                    forall|j: u32| #[trigger] lookup(patch.patch.randao_mixes@, j) == if it.seq().take(it.index@).contains(j) { Some(b256_of(mixes_of(patch.state.s)[j as int].b@)) } else { None },
                    forall|j: u32| #[trigger] it.seq().take(it.index@).contains(j) ==> j < mixes_of(patch.state.s).len(),
//@loop-begin 2
                proof { took(it.seq(), it.index@); }
//@loop-after 2
            proof { assert(elems(mixed[k].1@).take(elems(mixed[k].1@).len() as int) =~= elems(mixed[k].1@)); assert(patch_is(*self.inner, patch.state.s, patch.patch, mixed[k].0, mixed[k].1@, false, reg)); }
            let ghost patch1 = *patch;
//@loop-end 1
            proof { built_mixes(*self.inner, before, patch_builder@, mixed, k, patch1, reg); }
//@loop-after 1
        proof {
            axiom_elems(lookset);
            assert(mixed.take(mixed.len() as int) =~= mixed);
            assert(elems(looked).take(0).to_set().remove(t) =~= Set::empty());
        }
//@loop 3
            invariant
                reg == registry_of(ts), old_self.pwf(), self.inner == old_self.inner, self.chain_reader == old_self.chain_reader, self.trusted_checkpoint == old_self.trusted_checkpoint, self.beacon_block_reads == old_self.beacon_block_reads, self.validator_epochs == old_self.validator_epochs, self.mix_epochs == old_self.mix_epochs,
                it.seq() == elems(looked), looked == lookset@, trusted_state.s == ts, t == self.trusted_checkpoint.0.epoch, reg.len() <= usize::MAX,
                building(*self.inner, patch_builder@, mixed, it.seq().take(it.index@).to_set().remove(t), reg),
//@loop-begin 3
            let ghost k = it.index@;
            let ghost before = patch_builder@;
            let ghost was = it.seq().take(k).to_set().remove(t);
            let ghost mut got: StatePatchBuilder = arbitrary();
            let ghost now = it.seq().take(k + 1).to_set().remove(t);
            proof {
                axiom_elems(lookset);
                took(elems(looked), k);
                not_before(elems(looked), k);
                assert(now =~= if epoch == t { was } else { was.insert(epoch) });
                assert(!was.contains(epoch));
            }
//@loop-end 3
            proof { if epoch != t { built_exits(*self.inner, before, patch_builder@, mixed, was, epoch, got, reg); } }
//@loop-after 3
        proof {
            axiom_elems(lookset);
            assert(elems(looked).take(elems(looked).len() as int) =~= elems(looked));
            assert(elems(looked).to_set() =~= looked);
            axiom_one_each(patch_builder);
            assert(building(*self.inner, patch_builder@, mixed, looked.remove(t), reg));
        }
        let ghost built = patch_builder@;
//@after-let patches
        proof {
            assert forall|s: Seq<(Epoch, StatePatch)>| only_patches(built, s) && #[trigger] <BTreeMap<Epoch, StatePatch> as VFromIter<(Epoch, StatePatch)>>::collected(s, patches) implies patches_are(*self.inner, patches@, mixed, looked.remove(t), reg) by {
                built_patches(built, s);
                assert forall|e: Epoch| match #[trigger] lookup(patches@, e) {
                    Some(x) => (lookup(mixed, e) is Some || looked.remove(t).contains(e)) && patched(*self.inner, x, e, asked(mixed, e), looked.remove(t).contains(e), reg),
                    None => lookup(mixed, e) is None && !looked.remove(t).contains(e),
                } by {
                    assert(lookup(patches@, e) == lookup(s, e));
                    let o = lookup(built, e);
                    assert(o is Some ==> lookup(patches@, e) == Some(o->0.patch));
                    assert(o is Some ==> lookup(mixed, e) is Some || looked.remove(t).contains(e));
                    assert(o is None ==> lookup(mixed, e) is None && !looked.remove(t).contains(e));
                    if o is Some { assert(patch_is(*self.inner, o->0.state.s, o->0.patch, e, asked(mixed, e), looked.remove(t).contains(e), reg)); assert(patched(*self.inner, o->0.patch, e, asked(mixed, e), looked.remove(t).contains(e), reg)); }
                }
            }
            assert(patches_are(*self.inner, patches@, mixed, looked.remove(t), reg));
        }
//@after-let block_slot_proofs
        proof {
            let reads = elems(self.beacon_block_reads.v@);
            axiom_elems(self.beacon_block_reads.v);
            assert(block_slot_proofs@.len() == reads.len());
            assert forall|i: int| 0 <= i < reads.len() implies slot_proof(self.chain_reader, reads[i], #[trigger] block_slot_proofs@[i]) by { assert(*srefs(reads)[i] == reads[i]); }
            assert forall|root: Root| reads.contains(root) implies exists|i: int| 0 <= i < block_slot_proofs@.len() && leads_to(#[trigger] block_slot_proofs@[i]) == Some(root) by {
                let i = choose|i: int| 0 <= i < reads.len() && reads[i] == root; assert(slot_proof(self.chain_reader, reads[i], block_slot_proofs@[i]));
            }
            assert(block_root_of(ts) == Some(self.trusted_checkpoint.r()));
        }
//@end
}
impl<'a, SR: InputReader, CR> PreflightInputReader<'a, SR, CR> {
    pub open spec fn untouched(&self, o: &Self) -> bool { self.trusted_checkpoint == o.trusted_checkpoint && *self.inner == *o.inner && self.chain_reader == o.chain_reader }
//@fn host/src/input_reader/preflight_input_reader.rs | InputReader for PreflightInputReader::chain_spec | {"vis": "pub "}
//@ensures
        *vr == self.inner.s_chain(),
//@end
//@fn host/src/input_reader/preflight_input_reader.rs | InputReader for PreflightInputReader::genesis_validators_root | {"vis": "pub ", "types": {"Self::Error": "SR::Error"}}
//@ensures
        match self.inner.s_gvr() { Some(x) => vr is Ok && vr->Ok_0 == x, None => vr is Err },
//@end
//@fn host/src/input_reader/preflight_input_reader.rs | InputReader for PreflightInputReader::fork | {"vis": "pub ", "types": {"Self::Error": "SR::Error"}}
//@ensures
        match self.inner.s_fork(epoch) { Some(x) => vr is Ok && vr->Ok_0 == x, None => vr is Err },
//@end
//@fn host/src/input_reader/preflight_input_reader.rs | InputReader for PreflightInputReader::active_validators | {"vis": "pub ", "self_as_mut": true, "types": {"Self::Error": "SR::Error"}}
//@reject epoch.v < self.trusted_checkpoint.e()
//@requires
        old(self).inner.s_wf(),
//@ensures
        final(self).untouched(old(self)), final(self).mix_epochs == old(self).mix_epochs, final(self).beacon_block_reads == old(self).beacon_block_reads,
        epoch.v >= old(self).trusted_checkpoint.e(),
        match old(self).inner.s_active(epoch) { Some(a) => vr is Ok && actives_are(vr->Ok_0@, a) && final(self).validator_epochs.v@ == old(self).validator_epochs.v@.insert(epoch), None => vr is Err && old(self).validator_epochs.v@.subset_of(final(self).validator_epochs.v@) },
//@end
//@fn host/src/input_reader/preflight_input_reader.rs | InputReader for PreflightInputReader::randao_mix | {"vis": "pub ", "self_as_mut": true, "types": {"Self::Error": "SR::Error"}}
//@reject self.inner.s_mix(epoch, idx) == Some(None::<B256>)
//@ensures
        final(self).untouched(old(self)), final(self).validator_epochs == old(self).validator_epochs, final(self).beacon_block_reads == old(self).beacon_block_reads,
        match old(self).inner.s_mix(epoch, idx) {
            Some(m) => m is Some && vr is Ok && vr->Ok_0 == m && forall|e: Epoch| #[trigger] asked(final(self).mix_epochs.v@, e) == if e == epoch { asked(old(self).mix_epochs.v@, e).insert(idx) } else { asked(old(self).mix_epochs.v@, e) },
            None => vr is Err,
        },
        forall|e: Epoch| #[trigger] lookup(final(self).mix_epochs.v@, e) is Some ==> e == epoch || lookup(old(self).mix_epochs.v@, e) is Some,
//@begin
        broadcast use axiom_empty_set;
//@end
//@fn host/src/input_reader/preflight_input_reader.rs | InputReader for PreflightInputReader::attestations | {"vis": "pub ", "types": {"Self::Error": "SR::Error", "Self::Spec": "SR::Spec"}}
//@ensures
        match self.inner.s_atts() { Some(x) => vr is Ok && vr->Ok_0@ == srefs(x), None => vr is Err },
//@end
//@fn host/src/input_reader/preflight_input_reader.rs | InputReader for PreflightInputReader::consensus_state | {"vis": "pub ", "types": {"Self::Error": "SR::Error"}}
//@ensures
        match self.inner.s_state() { Some(x) => vr is Ok && vr->Ok_0 == x, None => vr is Err },
//@end
//@fn host/src/input_reader/preflight_input_reader.rs | InputReader for PreflightInputReader::slot_for_block | {"vis": "pub ", "self_as_mut": true, "types": {"Self::Error": "SR::Error"}}
//@ensures
        final(self).untouched(old(self)), final(self).validator_epochs == old(self).validator_epochs, final(self).mix_epochs == old(self).mix_epochs,
        match old(self).inner.s_slot(*block_root) { Some(s) => vr is Ok && vr->Ok_0 == s && final(self).beacon_block_reads.v@ == old(self).beacon_block_reads.v@.insert(*block_root), None => vr is Err },
//@end
}
} // verus!
