// Host: reading a beacon node (host/src/input_reader/host_input_reader.rs) and building state patches
// (host/src/state_patch_builder.rs).
verus! {
// ---- the beacon node. Nothing is assumed about what it answers, not even that it answers the same twice ----
#[verifier::external_body]
pub struct AnyError { x: u8 }
pub trait VDisplay { spec fn shown(&self) -> int; }
impl VDisplay for u64 { open spec fn shown(&self) -> int { *self as int } }
impl VDisplay for Slot { open spec fn shown(&self) -> int { self.v as int } }
impl VDisplay for Epoch { open spec fn shown(&self) -> int { self.v as int } }
pub uninterp spec fn shown_root(r: Root) -> int;
impl VDisplay for Root { open spec fn shown(&self) -> int { shown_root(*self) } }
#[verifier::external_body]
pub struct BeaconBlock { x: u8 }
pub struct BeaconBlockHeader { pub slot: u64, pub proposer_index: u64, pub parent_root: Root, pub state_root: Root, pub body_root: Root }
pub struct SignedBeaconBlockHeader { pub message: BeaconBlockHeader, pub signature: u64 }
pub trait ChainReader: Sized {
    /// the node reported state s for the state identifier id
    spec fn reports(&self, id: int, s: ConsensusState) -> bool;
    /// the node reported this block (or no block) for the block identifier id
    spec fn serves(&self, id: int, b: Option<BeaconBlock>) -> bool;
    /// the node reported this block header (or none) for the block identifier id
    spec fn heads(&self, id: int, h: Option<SignedBeaconBlockHeader>) -> bool;
    /// the node failed to answer for id
    spec fn fails(&self, id: int) -> bool;
    fn get_block_header<D: VDisplay>(&self, id: D) -> (r: Result<Option<SignedBeaconBlockHeader>, AnyError>)
        ensures match r { Ok(h) => self.heads(id.shown(), h), Err(_) => self.fails(id.shown()) };
    fn get_consensus_state<D: VDisplay>(&self, id: D) -> (r: Result<ConsensusState, AnyError>)
        ensures match r { Ok(s) => self.reports(id.shown(), s), Err(_) => self.fails(id.shown()) };
    fn get_block<D: VDisplay>(&self, id: D) -> (r: Result<Option<BeaconBlock>, AnyError>)
        ensures match r { Ok(b) => self.serves(id.shown(), b), Err(_) => self.fails(id.shown()) };
}
pub struct ElectraAttestation { pub x: u64 }
pub struct ElectraBody { pub attestations: Vec<ElectraAttestation> }
pub enum BeaconBlockBodyRef<'a> { Electra(&'a ElectraBody), Other }
pub uninterp spec fn electra_body(b: BeaconBlock) -> Option<ElectraBody>;
impl BeaconBlock {
    #[verifier::external_body]
    pub fn body(&self) -> (r: BeaconBlockBodyRef<'_>)
        ensures match electra_body(*self) { Some(b) => r is Electra && *r->Electra_0 == b, None => r is Other }
    { unimplemented!() }
}
/// the same attestation in the types of beacon_types (SSZ out and back in)
pub uninterp spec fn bt_att<E: EthSpec>(a: ElectraAttestation) -> Option<Attestation<E>>;
pub trait TryAsBeaconType<T> { spec fn bt(&self) -> Option<T>; fn try_as_beacon_type(&self) -> (r: Result<T, AnyError>) ensures match self.bt() { Some(t) => r is Ok && r->Ok_0 == t, None => r is Err }; }
impl<E: EthSpec> TryAsBeaconType<Attestation<E>> for ElectraAttestation {
    open spec fn bt(&self) -> Option<Attestation<E>> { bt_att::<E>(*self) }
    #[verifier::external_body]
    fn try_as_beacon_type(&self) -> Result<Attestation<E>, AnyError> { unimplemented!() }
}
pub mod anyhow { pub use super::AnyError as Error; pub use super::AnyResult as Result; }
pub type AnyResult<T> = Result<T, AnyError>;
pub mod std { pub mod marker { pub use core::marker::PhantomData; } pub mod io { pub use super::super::AnyError as Error; } }
pub mod ssz_rs { pub use super::AnyError as DeserializeError; pub use super::AnyError as MerkleizationError; }
//@item host/src/state_provider.rs | enum | StateProviderError
impl From<AnyError> for StateProviderError {
    #[verifier::external_body]
    fn from(e: AnyError) -> Self { unimplemented!() }
}
impl From<StateProviderError> for HostReaderError {
    #[verifier::external_body]
    fn from(e: StateProviderError) -> Self { unimplemented!() }
}
#[verifier::external_body]
pub fn vf_anyhow() -> AnyError { unimplemented!() }
//@item host/src/input_reader/host_input_reader.rs | enum | HostReaderError
// thiserror #[from]
impl From<AnyError> for HostReaderError {
    #[verifier::external_body]
    fn from(e: AnyError) -> Self { unimplemented!() }
}
impl From<ConsensusError> for HostReaderError {
    #[verifier::external_body]
    fn from(e: ConsensusError) -> Self { unimplemented!() }
}
pub fn vf_epoch_from(t: u64) -> (r: Epoch) ensures r.v == t { Epoch { v: t } }

// ---- C24: the states at successive epoch starts ----
pub open spec fn nth_epoch(e: u64, k: int) -> u64 { wrap(e + k) }
pub proof fn wrap_steps(e: int, k: int)
    requires 0 <= e <= u64::MAX, k >= 0,
    ensures
        nth_epoch(nth_epoch(e as u64, 1), k) == nth_epoch(e as u64, k + 1),
        forall|x: u64| #![trigger nth_epoch(x, k)] nth_epoch(x, k).wrapping_add_s() == nth_epoch(x, k + 1),
        nth_epoch(e as u64, 0) == e,
{
    assert((((e + 1) % 0x1_0000_0000_0000_0000) + k) % 0x1_0000_0000_0000_0000 == (e + 1 + k) % 0x1_0000_0000_0000_0000);
    assert forall|x: u64| #![trigger nth_epoch(x, k)] nth_epoch(x, k).wrapping_add_s() == nth_epoch(x, k + 1) by {
        assert((((x + k) % 0x1_0000_0000_0000_0000) + 1) % 0x1_0000_0000_0000_0000 == (x + k + 1) % 0x1_0000_0000_0000_0000);
    }
}
pub trait NextS { spec fn wrapping_add_s(self) -> u64; }
impl NextS for u64 { open spec fn wrapping_add_s(self) -> u64 { if self == u64::MAX { 0 } else { (self + 1) as u64 } } }
pub open spec fn start_of<E: EthSpec>(e: u64) -> int { sat(e * spe::<E>()) as int }
/// h: the states the node reported for the starts of the epochs from e on
pub open spec fn reported<E: EthSpec, CR: ChainReader>(cr: CR, e: u64, h: Seq<ConsensusState>) -> bool { forall|k: int| 0 <= k < h.len() ==> cr.reports(start_of::<E>(nth_epoch(e, k)), #[trigger] h[k]) }
/// the links between successive states, in order; none where nothing changed
pub open spec fn are_links(h: Seq<ConsensusState>, links: Seq<Link>) -> bool decreases h.len() {
    if h.len() <= 1 { links.len() == 0 } else {
        let (a, b) = (h[h.len() - 2], h[h.len() - 1]);
        if a == b { are_links(h.drop_last(), links) } else { links.len() > 0 && applied(a, links.last()) == Some(b) && are_links(h.drop_last(), links.drop_last()) }
    }
}
pub proof fn links_step(p: Seq<ConsensusState>, links: Seq<Link>, c: ConsensusState)
    requires p.len() >= 1, are_links(p, links),
    ensures
        p.last() == c ==> are_links(p.push(c), links),
        forall|l: Link| applied(p.last(), l) == Some(c) ==> are_links(p.push(c), #[trigger] links.push(l)),
{
    let h = p.push(c);
    assert(h.drop_last() =~= p);
    assert forall|l: Link| applied(p.last(), l) == Some(c) implies are_links(p.push(c), #[trigger] links.push(l)) by { assert(links.push(l).drop_last() =~= links); if p.last() == c { applied_moves(c, l); } }
}
pub proof fn applied_moves(c: ConsensusState, l: Link) ensures applied(c, l) != Some(c) {}
pub open spec fn one_step(a: ConsensusState, b: ConsensusState) -> bool { a == b || exists|l: Link| applied(a, l) == Some(b) }
pub open spec fn apply_all(s: ConsensusState, links: Seq<Link>) -> Option<ConsensusState> decreases links.len() {
    if links.len() == 0 { Some(s) } else { match apply_all(s, links.drop_last()) { Some(x) => applied(x, links.last()), None => None } }
}
pub proof fn links_apply(h: Seq<ConsensusState>, links: Seq<Link>)
    requires h.len() >= 1, are_links(h, links),
    ensures apply_all(h[0], links) == Some(h.last()),
    decreases h.len(),
{
    if h.len() > 1 {
        let (a, b) = (h[h.len() - 2], h[h.len() - 1]);
        assert(h.drop_last().last() == a); assert(h.drop_last()[0] == h[0]);
        if a == b { links_apply(h.drop_last(), links); } else { links_apply(h.drop_last(), links.drop_last()); }
    }
}
/// links of a chain are pairwise distinct: their targets strictly advance
pub proof fn links_distinct(h: Seq<ConsensusState>, links: Seq<Link>)
    requires h.len() >= 1, are_links(h, links),
    ensures
        links.no_duplicates(),
        forall|i: int| 0 <= i < links.len() ==> (#[trigger] links[i]).target.e() <= h.last().current_justified_checkpoint.e(),
    decreases h.len(),
{
    if h.len() > 1 {
        let (a, b) = (h[h.len() - 2], h[h.len() - 1]);
        assert(h.drop_last().last() == a);
        if a == b { links_distinct(h.drop_last(), links); } else {
            let p = links.drop_last();
            links_distinct(h.drop_last(), p);
            assert forall|i: int| 0 <= i < links.len() implies (#[trigger] links[i]).target.e() <= b.current_justified_checkpoint.e() by { if i < p.len() { assert(p[i] == links[i]); } }
            assert forall|i: int, j: int| 0 <= i < links.len() && 0 <= j < links.len() && i != j implies links[i] != links[j] by {
                if i < p.len() { assert(p[i] == links[i]); }
                if j < p.len() { assert(p[j] == links[j]); }
            }
        }
    }
}
pub open spec fn finalities_until(h: Seq<ConsensusState>, f: Checkpoint) -> bool { forall|k: int| 0 <= k < h.len() - 1 ==> (#[trigger] h[k]).finalized_checkpoint == f }
/// C24
pub open spec fn chain_found<E: EthSpec, CR: ChainReader>(cr: CR, e: u64, h: Seq<ConsensusState>, links: Seq<Link>) -> bool {
    &&& h.len() >= 2 && reported::<E, CR>(cr, e, h)
    &&& are_links(h, links)
    &&& apply_all(h[0], links) == Some(h.last())
    &&& finalities_until(h, h[0].finalized_checkpoint)
    &&& h.last().finalized_checkpoint != h[0].finalized_checkpoint
}
pub open spec fn lower(h: Seq<ConsensusState>, c: Checkpoint) -> bool { forall|k: int| 0 <= k < h.len() ==> (#[trigger] h[k]).finalized_checkpoint.e() < c.e() }

/// h: the reports from the epoch after the trusted one up to the first that finalizes it, none beyond it before
pub open spec fn first_report<E: EthSpec, CR: ChainReader>(cr: CR, c: Checkpoint, h: Seq<ConsensusState>) -> bool {
    &&& h.len() >= 1 && reported::<E, CR>(cr, nth_epoch(c.e() as u64, 1), h)
    &&& lower(h.drop_last(), c)
    &&& h.last().finalized_checkpoint == c
}
pub open spec fn h0_epoch(c: Checkpoint, h: Seq<ConsensusState>) -> u64 { nth_epoch(c.e() as u64, h.len() as int) }
/// ... and h2 starts with a report for that epoch which finalizes it too
pub open spec fn chain_from<E: EthSpec, CR: ChainReader>(cr: CR, c: Checkpoint, h: Seq<ConsensusState>, h2: Seq<ConsensusState>) -> bool {
    first_report::<E, CR>(cr, c, h) && h2.len() > 0 && reported::<E, CR>(cr, h0_epoch(c, h), h2) && h2[0].finalized_checkpoint == c
}
//@fn host/src/input_reader/host_input_reader.rs | find_finalization_epoch | {"arith": "wrapping", "attr": "#[verifier::exec_allows_no_decreases_clause]\n"}
//@ensures
        match vr {
            Ok(e) => exists|h: Seq<ConsensusState>| #![trigger reported::<E, CR>(*chain_reader, nth_epoch(trusted_checkpoint.e() as u64, 1), h)] {
                &&& first_report::<E, CR>(*chain_reader, trusted_checkpoint, h)
                &&& e.v == h0_epoch(trusted_checkpoint, h)
            },
            Err(_) => exists|h: Seq<ConsensusState>| #![trigger reported::<E, CR>(*chain_reader, nth_epoch(trusted_checkpoint.e() as u64, 1), h)] {
                &&& reported::<E, CR>(*chain_reader, nth_epoch(trusted_checkpoint.e() as u64, 1), h)
                &&& {
                    ||| lower(h, trusted_checkpoint) && chain_reader.fails(start_of::<E>(nth_epoch(trusted_checkpoint.e() as u64, 1 + h.len() as int)))
                    ||| h.len() > 0 && lower(h.drop_last(), trusted_checkpoint) && h.last().finalized_checkpoint != trusted_checkpoint && h.last().finalized_checkpoint.e() >= trusted_checkpoint.e()
                }
            },
        },
//@begin
    let ghost mut hist: Seq<ConsensusState> = Seq::empty();
    let ghost e1 = nth_epoch(trusted_checkpoint.e() as u64, 1);
//@loop 0
        invariant
            e1 == nth_epoch(trusted_checkpoint.e() as u64, 1),
            vf_next0 == nth_epoch(e1, hist.len() as int),
            reported::<E, CR>(*chain_reader, e1, hist),
            lower(hist, trusted_checkpoint),
//@loop-begin 0
        proof { wrap_steps(trusted_checkpoint.e(), hist.len() as int); }
//@after-let state
        proof { let prev = hist; hist = hist.push(state); assert(hist.drop_last() =~= prev); assert(reported::<E, CR>(*chain_reader, nth_epoch(trusted_checkpoint.e() as u64, 1), hist)); }
//@end

//@fn host/src/input_reader/host_input_reader.rs | get_justifications_until_new_finality | {"arith": "wrapping", "attr": "#[verifier::exec_allows_no_decreases_clause]\n"}
//@ensures
        match vr {
            Ok((first, last, links)) => exists|h: Seq<ConsensusState>| #![trigger reported::<E, CR>(*chain_reader, start_epoch.v, h)] chain_found::<E, CR>(*chain_reader, start_epoch.v, h, links@) && first == h[0] && last == h.last(),
            Err(_) => exists|h: Seq<ConsensusState>| #![trigger reported::<E, CR>(*chain_reader, start_epoch.v, h)] {
                &&& reported::<E, CR>(*chain_reader, start_epoch.v, h)
                &&& {
                    ||| (exists|links: Seq<Link>| are_links(h, links)) && (h.len() > 0 ==> finalities_until(h.push(h[0]), h[0].finalized_checkpoint)) && chain_reader.fails(start_of::<E>(nth_epoch(start_epoch.v, h.len() as int)))
                    ||| h.len() >= 2 && finalities_until(h, h[0].finalized_checkpoint) && !one_step(h[h.len() - 2], h[h.len() - 1])
                }
            },
        },
//@begin
    let ghost mut hist: Seq<ConsensusState> = Seq::empty();
    proof { wrap_steps(start_epoch.v as int, 0); assert(are_links(hist, Seq::empty())); assert(reported::<E, CR>(*chain_reader, start_epoch.v, hist)); }
//@after-let initial_state
    proof { hist = hist.push(initial_state); assert(reported::<E, CR>(*chain_reader, start_epoch.v, hist)); }
//@after-let links
    proof { assert(are_links(hist, links@)); }
//@loop 0
        invariant
            hist.len() >= 1, hist[0] == initial_state, hist.last() == prev_state,
            initial_finalized_checkpoint == initial_state.finalized_checkpoint,
            vf_next0 == nth_epoch(start_epoch.v, hist.len() as int),
            reported::<E, CR>(*chain_reader, start_epoch.v, hist),
            are_links(hist, links@),
            finalities_until(hist.push(hist[0]), hist[0].finalized_checkpoint),
//@loop-begin 0
        proof { wrap_steps(start_epoch.v as int, hist.len() as int); }
        let ghost prev = hist;
        let ghost plinks = links@;
//@after-let current_state
        proof {
            hist = hist.push(current_state);
            assert(hist.drop_last() =~= prev);
            links_step(prev, plinks, current_state);
            assert(hist[hist.len() - 2] == prev_state);
            assert(reported::<E, CR>(*chain_reader, start_epoch.v, hist));
            assert(finalities_until(hist, hist[0].finalized_checkpoint)) by { assert forall|k: int| 0 <= k < hist.len() - 1 implies (#[trigger] hist[k]).finalized_checkpoint == hist[0].finalized_checkpoint by { assert(prev.push(prev[0])[k] == hist[k]); } }
            assert forall|ls: Seq<Link>| #[trigger] are_links(hist, ls) && current_state.finalized_checkpoint != hist[0].finalized_checkpoint implies chain_found::<E, CR>(*chain_reader, start_epoch.v, hist, ls) by { links_apply(hist, ls); }
        }
//@end

// ---- C25 ----
/// std::collections::HashMap
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { x: Vec<(K, V)> }
impl<K, V> View for HashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, T> HashMap<K, Vec<T>> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, Vec<T>>::empty() { unimplemented!() }
    /// entry(k).or_default()
    #[verifier::external_body]
    pub fn vf_entry_or_default(&mut self, k: K) -> (r: &mut Vec<T>)
        ensures
            r@ == held(old(self)@, k),
            final(self)@ == old(self)@.insert(k, *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<Vec<T>>)
        ensures
            final(self)@ == old(self)@.remove(*k),
            match r { Some(v) => old(self)@.contains_key(*k) && v == old(self)@[*k], None => !old(self)@.contains_key(*k) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_get(&self, k: &K) -> (r: Option<&Vec<T>>)
        ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) },
    { unimplemented!() }
}
pub open spec fn held<K, T>(m: Map<K, Vec<T>>, k: K) -> Seq<T> { if m.contains_key(k) { m[k]@ } else { Seq::empty() } }
pub trait VUnwrapOr<T> { fn vf_unwrap_or_default(self) -> (r: Vec<T>) ensures r@ == self.or_empty(); spec fn or_empty(self) -> Seq<T>; }
impl<T> VUnwrapOr<T> for Option<Vec<T>> {
    open spec fn or_empty(self) -> Seq<T> { match self { Some(v) => v@, None => Seq::empty() } }
    fn vf_unwrap_or_default(self) -> (r: Vec<T>) { match self { Some(v) => v, None => Vec::new() } }
}
pub trait VExtend<T> { fn vf_extend(&mut self, v: Vec<T>); }
impl<T> VExtend<T> for Vec<T> {
    #[verifier::external_body]
    fn vf_extend(&mut self, v: Vec<T>) ensures final(self)@ == old(self)@ + v@ { unimplemented!() }
}
pub open spec fn somes<T>(s: Seq<Option<T>>) -> Seq<T> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { match s.last() { Some(x) => somes(s.drop_last()).push(x), None => somes(s.drop_last()) } }
}
impl<T> VIter<Option<T>> {
    #[verifier::external_body]
    pub fn vf_flatten(self) -> (r: VIter<T>) ensures r@ == somes(self@) { unimplemented!() }
}
impl VIter<Epoch> {
    #[verifier::external_body]
    pub fn min(self) -> (r: Option<Epoch>)
        ensures self@.len() == 0 <==> r is None, r is Some ==> (exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i] == r->0) && (forall|i: int| 0 <= i < self@.len() ==> r->0.v <= (#[trigger] self@[i]).v),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn max(self) -> (r: Option<Epoch>)
        ensures self@.len() == 0 <==> r is None, r is Some ==> (exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i] == r->0) && (forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).v <= r->0.v),
    { unimplemented!() }
}
/// all of the requests, or an error
#[verifier::external_body]
pub fn vf_try_join_all<T, E>(it: VIter<Result<T, E>>) -> (r: Result<Vec<T>, E>)
    ensures match r {
        Ok(v) => v@.len() == it@.len() && forall|i: int| 0 <= i < v@.len() ==> it@[i] == Ok::<T, E>(#[trigger] v@[i]),
        Err(e) => exists|i: int| 0 <= i < it@.len() && #[trigger] it@[i] == Err::<T, E>(e),
    },
{ unimplemented!() }
pub open spec fn link_of<E: EthSpec>(a: Attestation<E>) -> Link { Link { source: Checkpoint(a.data_s().source), target: Checkpoint(a.data_s().target) } }
/// the attestations of a sequence with this source and target, in order
pub open spec fn grp<E: EthSpec>(s: Seq<Attestation<E>>, l: Link) -> Seq<Attestation<E>> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if link_of(s.last()) == l { grp(s.drop_last(), l).push(s.last()) } else { grp(s.drop_last(), l) }
}
pub open spec fn grouped<E: EthSpec>(links: Seq<Link>, s: Seq<Attestation<E>>, k: int) -> Seq<Attestation<E>> decreases k {
    if k <= 0 { Seq::empty() } else { grouped(links, s, k - 1) + grp(s, links[k - 1]) }
}
pub open spec fn conv<E: EthSpec>(s: Seq<ElectraAttestation>) -> Seq<Attestation<E>> { Seq::new(s.len(), |i: int| bt_att::<E>(s[i])->0) }
pub open spec fn readable<E: EthSpec>(b: BeaconBlock) -> bool { electra_body(b) is Some && forall|i: int| 0 <= i < electra_body(b)->0.attestations@.len() ==> bt_att::<E>(#[trigger] electra_body(b)->0.attestations@[i]) is Some }
/// the attestations of a sequence of blocks, in block order
pub open spec fn atts_in<E: EthSpec>(bs: Seq<BeaconBlock>) -> Seq<Attestation<E>> decreases bs.len() {
    if bs.len() == 0 { Seq::empty() } else { atts_in::<E>(bs.drop_last()) + conv::<E>(electra_body(bs.last())->0.attestations@) }
}
pub open spec fn first_target(links: Seq<Link>, e: Epoch) -> bool { (exists|i: int| 0 <= i < links.len() && (#[trigger] links[i]).target.e() == e.v) && forall|i: int| 0 <= i < links.len() ==> e.v <= (#[trigger] links[i]).target.e() }
pub open spec fn last_target(links: Seq<Link>, e: Epoch) -> bool { (exists|i: int| 0 <= i < links.len() && (#[trigger] links[i]).target.e() == e.v) && forall|i: int| 0 <= i < links.len() ==> (#[trigger] links[i]).target.e() <= e.v }
pub open spec fn range_lo<E: EthSpec>(lo: Epoch) -> int { sat(lo.v * spe::<E>()) as int }
pub open spec fn range_hi<E: EthSpec>(hi: Epoch) -> int { sat(sat(hi.v + 1) * spe::<E>()) as int }
/// the blocks the node served for the slots of the range, in slot order
pub open spec fn served<E: EthSpec, CR: ChainReader>(cr: CR, lo: Epoch, hi: Epoch, bs: Seq<Option<BeaconBlock>>) -> bool {
    &&& bs.len() == (if range_lo::<E>(lo) <= range_hi::<E>(hi) { range_hi::<E>(hi) - range_lo::<E>(lo) + 1 } else { 0 })
    &&& forall|k: int| 0 <= k < bs.len() ==> cr.serves(range_lo::<E>(lo) + k, #[trigger] bs[k])
}
/// C25
pub open spec fn collected<E: EthSpec, CR: ChainReader>(cr: CR, links: Seq<Link>, atts: Seq<Attestation<E>>, lo: Epoch, hi: Epoch, bs: Seq<Option<BeaconBlock>>) -> bool {
    &&& first_target(links, lo) && last_target(links, hi) && served::<E, CR>(cr, lo, hi, bs)
    &&& forall|k: int| 0 <= k < somes(bs).len() ==> readable::<E>(#[trigger] somes(bs)[k])
    &&& links.no_duplicates() ==> atts == grouped(links, atts_in::<E>(somes(bs)), links.len() as int)
}
/// a request failed, or a block could not be read
pub open spec fn not_collected<E: EthSpec, CR: ChainReader>(cr: CR, lo: Epoch, hi: Epoch) -> bool {
    ||| exists|k: int| range_lo::<E>(lo) <= k <= range_hi::<E>(hi) && #[trigger] cr.fails(k)
    ||| exists|bs: Seq<Option<BeaconBlock>>, k: int| #[trigger] served::<E, CR>(cr, lo, hi, bs) && 0 <= k < somes(bs).len() && !readable::<E>(#[trigger] somes(bs)[k])
}
pub broadcast proof fn srefs_at<'a, A>(a: Seq<A>, i: int)
    requires 0 <= i < a.len(),
    ensures #![trigger a[i], srefs::<'a, A>(a)] *srefs::<'a, A>(a)[i] == a[i],
{}
impl<T> VIter<T> {
    #[verifier::external_body]
    pub fn map_each<B, F: Fn(T) -> B>(self, f: F) -> (r: VIter<B>)
        requires all_req1(f, self@),
        ensures r@.len() == self@.len(), forall|i: int| #![trigger self@[i]] #![trigger r@[i]] 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), r@[i]),
    { unimplemented!() }
}
//@fn host/src/input_reader/host_input_reader.rs | collect_attestations_for_links | {"methods": {"map": "map_each"}}
//@ensures
        match vr {
            Ok(atts) => if links@.len() == 0 { atts@.len() == 0 } else { exists|lo: Epoch, hi: Epoch, bs: Seq<Option<BeaconBlock>>| #[trigger] served::<E, CR>(*chain_reader, lo, hi, bs) && collected::<E, CR>(*chain_reader, links@, atts@, lo, hi, bs) },
            Err(_) => links@.len() > 0 && exists|lo: Epoch, hi: Epoch| #[trigger] first_target(links@, lo) && #[trigger] last_target(links@, hi) && not_collected::<E, CR>(*chain_reader, lo, hi),
        },
//@begin
    proof { broadcast use srefs_at; }
//@closure 0
        |$0: &Link| -> (r: Epoch) ensures r.v == $0.target.e()
//@closure 1
        |$0: &Link| -> (r: Epoch) ensures r.v == $0.target.e()
//@closure 2
        |$0: u64| -> (r: Result<Option<BeaconBlock>, AnyError>) ensures match r { Ok(b) => chain_reader.serves($0 as int, b), Err(_) => chain_reader.fails($0 as int) }
//@after-let min_epoch
    proof { assert(first_target(links@, min_epoch)); }
//@after-let max_epoch
    proof { assert(last_target(links@, max_epoch)); }
//@after-let blocks
    let ghost bs = blocks@;
    let ghost found = somes(bs);
    proof { assert(served::<E, CR>(*chain_reader, min_epoch, max_epoch, bs)); }
//@after-let attestations_by_link
    let ghost mut all: Seq<Attestation<E>> = Seq::empty();
//@loop 0
        invariant
            found == somes(bs), links@.len() > 0, first_target(links@, min_epoch), last_target(links@, max_epoch), served::<E, CR>(*chain_reader, min_epoch, max_epoch, bs),
            it.seq() == found,
            all == atts_in::<E>(found.take(it.index@)),
            forall|l: Link| held(attestations_by_link@, l) == grp(all, l),
            forall|k: int| 0 <= k < it.index@ ==> readable::<E>(#[trigger] found[k]),
//@loop-begin 0
        let ghost j = it.index@;
        let ghost before = all;
        proof { assert(found.take(j + 1).drop_last() =~= found.take(j)); }
//@after-let body
        let ghost here = body.attestations@;
//@loop 1
            invariant
                found == somes(bs), links@.len() > 0, first_target(links@, min_epoch), last_target(links@, max_epoch), served::<E, CR>(*chain_reader, min_epoch, max_epoch, bs),
            0 <= j < found.len(), block == found[j], it.seq() == srefs(here), electra_body(block) == Some(*body), here == body.attestations@,
                all == before + conv::<E>(here.take(it.index@)),
                forall|l: Link| held(attestations_by_link@, l) == grp(all, l),
                forall|k: int| 0 <= k < it.index@ ==> bt_att::<E>(#[trigger] here[k]) is Some,
//@loop-end 1
            proof { assert(conv::<E>(here.take(it.index@ + 1)) =~= conv::<E>(here.take(it.index@)).push(bt_att::<E>(here[it.index@])->0)); }
//@after-let link
            proof {
                let a = attestation;
                let prev = all;
                all = all.push(a);
                assert(all.drop_last() =~= prev);
                assert(link == link_of(a));
                assert(grp(all, link) == grp(prev, link).push(a));
                assert forall|l: Link| l != link implies #[trigger] grp(all, l) == grp(prev, l) by {}
            }
//@loop-end 0
        proof { assert(here.take(here.len() as int) =~= here); }
//@loop-after 0
    proof { assert(found.take(found.len() as int) =~= found); }
//@loop 2
        invariant
            it.seq() == srefs(links@),
            links@.no_duplicates() ==> vf_out@ == grouped(links@, all, it.index@),
            forall|l: Link| !links@.take(it.index@).contains(l) ==> held(attestations_by_link@, l) == grp(all, l),
//@loop-begin 2
        proof {
            let k = it.index@;
            assert(links@.take(k + 1).drop_last() =~= links@.take(k));
            assert forall|l: Link| !(#[trigger] links@.take(k + 1).contains(l)) implies l != links@[k] && !links@.take(k).contains(l) by { assert(links@.take(k + 1)[k] == links@[k]); assert forall|i: int| 0 <= i < k implies links@.take(k)[i] != l by { assert(links@.take(k + 1)[i] == links@.take(k)[i]); } }
            if links@.no_duplicates() { assert(!links@.take(k).contains(links@[k])); }
        }
//@tail
    proof { assert(links@.take(links@.len() as int) =~= links@); assert(collected::<E, CR>(*chain_reader, links@, result@, min_epoch, max_epoch, bs)); }
//@end

// ---- the reader ----
// ---- the beacon states ----
/// a validator record and a mix of the beacon state (ethereum-consensus)
pub struct Validator { pub activation_eligibility_epoch: u64, pub activation_epoch: u64, pub exit_epoch: u64, pub withdrawable_epoch: u64, pub effective_balance: u64, pub slashed: bool, pub public_key: BlsBytes }
#[verifier::external_body]
pub struct BlsBytes { x: Vec<u8> }
pub struct Mix { pub b: [u8; 32] }
impl Mix { pub fn as_slice(&self) -> (r: &Mix) ensures *r == *self { self } }
#[verifier::external_body]
pub struct BeaconState { x: u8 }
pub uninterp spec fn mixes_of(s: BeaconState) -> Seq<Mix>;
pub uninterp spec fn registry_of(s: BeaconState) -> Seq<Validator>;
pub uninterp spec fn slot_of(s: BeaconState) -> u64;
pub uninterp spec fn gvr_of(s: BeaconState) -> Root;
pub uninterp spec fn header_of(s: BeaconState) -> BeaconBlockHeader;
pub uninterp spec fn fork_of(s: BeaconState) -> StateFork;
/// SSZ hash_tree_root of a state and of a block header (merkleization)
pub uninterp spec fn state_root_s(s: BeaconState) -> Option<Root>;
pub uninterp spec fn header_root_s(h: BeaconBlockHeader) -> Option<Root>;
/// a registry is in memory
#[verifier::external_body]
pub proof fn registry_fits(s: BeaconState) ensures registry_of(s).len() <= usize::MAX {}
pub struct StateFork { pub previous_version: [u8; 4], pub current_version: [u8; 4], pub epoch: u64 }
impl Clone for BeaconBlockHeader {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl BeaconBlockHeader {
    #[verifier::external_body]
    pub fn hash_tree_root(&self) -> (r: Result<Root, AnyError>) ensures match header_root_s(*self) { Some(x) => r is Ok && r->Ok_0 == x, None => r is Err } { unimplemented!() }
}
impl BeaconState {
    #[verifier::external_body]
    pub fn randao_mixes(&self) -> (r: &Vec<Mix>) ensures r@ == mixes_of(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn validators(&self) -> (r: &Vec<Validator>) ensures r@ == registry_of(*self), r@.len() <= usize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn slot(&self) -> (r: u64) ensures r == slot_of(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn genesis_validators_root(&self) -> (r: Root) ensures r == gvr_of(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn latest_block_header(&self) -> (r: &BeaconBlockHeader) ensures *r == header_of(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn fork(&self) -> (r: &StateFork) ensures *r == fork_of(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn hash_tree_root(&self) -> (r: Result<Root, AnyError>) ensures match state_root_s(*self) { Some(x) => r is Ok && r->Ok_0 == x, None => r is Err } { unimplemented!() }
}
/// Arc<BeaconState>: a shared state; sharing is not modelled
pub struct StateRef { pub s: BeaconState }
impl StateRef {
    pub fn randao_mixes(&self) -> (r: &Vec<Mix>) ensures r@ == mixes_of(self.s) { self.s.randao_mixes() }
    pub fn validators(&self) -> (r: &Vec<Validator>) ensures r@ == registry_of(self.s), r@.len() <= usize::MAX { self.s.validators() }
    pub fn slot(&self) -> (r: u64) ensures r == slot_of(self.s) { self.s.slot() }
    pub fn genesis_validators_root(&self) -> (r: Root) ensures r == gvr_of(self.s) { self.s.genesis_validators_root() }
    pub fn latest_block_header(&self) -> (r: &BeaconBlockHeader) ensures *r == header_of(self.s) { self.s.latest_block_header() }
    pub fn fork(&self) -> (r: &StateFork) ensures *r == fork_of(self.s) { self.s.fork() }
    pub fn hash_tree_root(&self) -> (r: Result<Root, AnyError>) ensures match state_root_s(self.s) { Some(x) => r is Ok && r->Ok_0 == x, None => r is Err } { self.s.hash_tree_root() }
}
impl Clone for StateRef {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

/// elsa::FrozenMap: entries are only ever added. `inv` is an invariant of the entries: every insertion has to establish
/// it, so what is found satisfies it; an empty map satisfies any.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct FrozenMap<K, V> { x: Vec<(K, V)> }
impl<K, V> FrozenMap<K, V> {
    pub uninterp spec fn inv(&self, k: K, v: V) -> bool;
    pub uninterp spec fn fresh(&self) -> bool;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.fresh() { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_get(&self, k: &K) -> (r: Option<&V>) ensures r is Some ==> self.inv(*k, *r->0) { unimplemented!() }
    /// the value already there, if there is one
    #[verifier::external_body]
    pub fn insert(&self, k: K, v: V) -> (r: &V) requires self.inv(k, v) ensures self.inv(k, *r) { unimplemented!() }
}
impl<K, V> VDefault for FrozenMap<K, V> { uninterp spec fn default_s() -> Self;
    #[verifier::external_body]
    fn vdefault() -> (r: Self) { unimplemented!() } }
/// used once per map, where it is made
#[verifier::external_body]
pub proof fn empty_map_inv<K, V>(m: FrozenMap<K, V>, p: spec_fn(K, V) -> bool)
    requires m == FrozenMap::<K, V>::default_s() || m.fresh(),
    ensures forall|k: K, v: V| #[trigger] m.inv(k, v) == p(k, v),
{}

// ---- C28: states by slot, epoch and checkpoint. Nothing is assumed about what a source of states answers ----
pub trait StateSource: Sized {
    type Spec: EthSpec;
    /// the source gave state s for the slot
    spec fn gives(&self, slot: u64, s: BeaconState) -> bool;
    spec fn lacks(&self, slot: u64) -> bool;
    /// what its constructor guarantees
    spec fn source_wf(&self) -> bool;
}
pub open spec fn epoch_slot<P: StateSource>(e: Epoch) -> u64 { sat(e.v * spe::<P::Spec>()) }
/// s is the state of the latest block at the start of the epoch
pub open spec fn boundary_state<P: StateSource>(p: P, e: Epoch, s: BeaconState) -> bool {
    exists|t: BeaconState| #[trigger] p.gives(epoch_slot::<P>(e), t) && if header_of(t).slot == slot_of(t) { s == t } else { p.gives(header_of(t).slot, s) }
}
/// the root of the block whose post-state is s
pub open spec fn block_root_of(s: BeaconState) -> Option<Root> {
    match state_root_s(s) { Some(r) => header_root_s(BeaconBlockHeader { state_root: r, ..header_of(s) }), None => None }
}
pub open spec fn unhashable() -> bool { (exists|s: BeaconState| #[trigger] state_root_s(s) is None) || exists|h: BeaconBlockHeader| #[trigger] header_root_s(h) is None }
pub trait StateProvider: StateSource {
    fn state_at_slot(&self, slot: Slot) -> (r: Result<StateRef, StateProviderError>)
        requires self.source_wf(),
        ensures match r { Ok(s) => self.gives(slot.v, s.s), Err(_) => self.lacks(slot.v) };
//@fn host/src/state_provider.rs | trait StateProvider::genesis_validators_root
//@requires
        self.source_wf(),
//@ensures
        match vr { Ok(x) => exists|slot: u64, s: BeaconState| #[trigger] self.gives(slot, s) && x == gvr_of(s), Err(_) => self.lacks(0) },
//@end
//@fn host/src/state_provider.rs | trait StateProvider::state_at_epoch
//@requires
        self.source_wf(),
//@ensures
        match vr { Ok(s) => self.gives(epoch_slot::<Self>(epoch), s.s), Err(_) => self.lacks(epoch_slot::<Self>(epoch)) },
//@end
//@fn host/src/state_provider.rs | trait StateProvider::state_at_epoch_boundary
//@requires
        self.source_wf(),
//@ensures
        match vr { Ok(s) => boundary_state(*self, epoch, s.s), Err(_) => self.lacks(epoch_slot::<Self>(epoch)) || exists|t: BeaconState| #[trigger] self.gives(epoch_slot::<Self>(epoch), t) && self.lacks(header_of(t).slot) },
//@end
//@fn host/src/state_provider.rs | trait StateProvider::state_at_checkpoint
//@reject unhashable()
//@requires
        self.source_wf(),
//@ensures
        vr is Ok ==> boundary_state(*self, checkpoint.0.epoch, vr->Ok_0.s) && block_root_of(vr->Ok_0.s) == Some(checkpoint.r()),
//@end
}
/// the active set of a registry at an epoch, in the types of the guest
pub uninterp spec fn key_of(b: BlsBytes) -> Option<PublicKey>;
pub open spec fn info_of(v: Validator) -> Option<ValidatorInfo> {
    match key_of(v.public_key) {
        Some(k) => Some(ValidatorInfo { pubkey: k, effective_balance: v.effective_balance, slashed: v.slashed, activation_epoch: Epoch { v: v.activation_epoch }, activation_eligibility_epoch: Epoch { v: v.activation_eligibility_epoch }, exit_epoch: Epoch { v: v.exit_epoch } }),
        None => None,
    }
}
pub open spec fn record_active(v: Validator, e: Epoch) -> bool { v.activation_epoch <= e.v && e.v < v.exit_epoch }
/// C28: positions and records, ascending, of exactly the validators of s active at e
pub open spec fn actives_of(r: Seq<(usize, ValidatorInfo)>, s: Seq<Validator>, e: Epoch) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).0 < (#[trigger] r[j]).0
    &&& forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).0 < s.len() && record_active(s[r[i].0 as int], e) && info_of(s[r[i].0 as int]) == Some(r[i].1)
    &&& forall|k: int| 0 <= k < s.len() && record_active(#[trigger] s[k], e) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == k
}
pub open spec fn cached_ok<P: StateSource>(p: P, e: Epoch, v: Seq<(usize, ValidatorInfo)>) -> bool {
    exists|s: BeaconState| #[trigger] p.gives(epoch_slot::<P>(e), s) && actives_of(v, registry_of(s), e)
}
#[verifier::reject_recursive_types(E)]
//@item host/src/input_reader/host_input_reader.rs | struct | HostInputReader
impl<E: EthSpec, P: StateProvider, CR: ChainReader> HostInputReader<E, P, CR> {
    /// what the cache holds is right
    pub open spec fn rwf(&self) -> bool {
        &&& self.provider.source_wf()
        &&& forall|e: Epoch, v: Vec<(ValidatorIndex, ValidatorInfo)>| #[trigger] self.validator_cache.inv(e, v) <==> cached_ok(self.provider, e, v@)
    }
//@fn host/src/input_reader/host_input_reader.rs | HostInputReader::new
//@reject true
//@requires
        provider.source_wf(),
//@ensures
        vr is Ok ==> vr->Ok_0.rwf() && vr->Ok_0.provider == provider && vr->Ok_0.chain_reader == chain_reader && vr->Ok_0.spec == spec, //[C28]
        match vr {
            Ok(rd) => exists|c: Seq<ConsensusState>, h: Seq<ConsensusState>| #![trigger chain_from::<E, CR>(chain_reader, trusted_checkpoint, c, h)] {
                &&& chain_from::<E, CR>(chain_reader, trusted_checkpoint, c, h)
                &&& rd.consensus_state == h[0]
                &&& exists|links: Seq<Link>| #![trigger are_links(h, links)] {
                    &&& chain_found::<E, CR>(chain_reader, h0_epoch(trusted_checkpoint, c), h, links) && links.no_duplicates()
                    &&& if links.len() == 0 { rd.attestation_cache@.len() == 0 } else { exists|lo: Epoch, hi: Epoch, bs: Seq<Option<BeaconBlock>>| #[trigger] served::<E, CR>(chain_reader, lo, hi, bs) && collected::<E, CR>(chain_reader, links, rd.attestation_cache@, lo, hi, bs) }
                }
            },
            Err(_) => true,
        },
//@after-let finalization_epoch
    let ghost c0 = choose|h: Seq<ConsensusState>| #![trigger reported::<E, CR>(chain_reader, nth_epoch(trusted_checkpoint.e() as u64, 1), h)] first_report::<E, CR>(chain_reader, trusted_checkpoint, h) && finalization_epoch.v == h0_epoch(trusted_checkpoint, h);
//@after-let links
    let ghost h1 = choose|h: Seq<ConsensusState>| #![trigger reported::<E, CR>(chain_reader, finalization_epoch.v, h)] chain_found::<E, CR>(chain_reader, finalization_epoch.v, h, links@) && state == h[0];
//@tail
    proof { assert(chain_from::<E, CR>(chain_reader, trusted_checkpoint, c0, h1)); assert(are_links(h1, links@)); links_distinct(h1, links@); }
    let ghost provider0 = provider;
//@result
    proof { if vf_r is Ok { empty_map_inv(vf_r->Ok_0.validator_cache, |e: Epoch, v: Vec<(ValidatorIndex, ValidatorInfo)>| cached_ok(provider0, e, v@)); } }
//@end
}

// ---- C26: state patches ----
//@item core/src/state_patch.rs | struct | StatePatch
impl StatePatch {
//@fn core/src/state_patch.rs | StatePatch::new
//@ensures
        vr.randao_mixes@ == Seq::<(u32, B256)>::empty(), vr.validator_exits@ == Seq::<(usize, Epoch)>::empty(),
//@end
}
impl VKey for u32 { open spec fn klt(a: u32, b: u32) -> bool { a < b } }
pub trait VBytes32 { spec fn b32(&self) -> Seq<u8>; }
impl VBytes32 for Mix { open spec fn b32(&self) -> Seq<u8> { self.b@ } }
/// B256::from_slice of 32 bytes
#[verifier::external_body]
pub fn vf_b256_from_slice<T: VBytes32>(x: &T) -> (r: B256) ensures r == b256_of(x.b32()) { unimplemented!() }
/// anyhow::Context of an option
pub trait Context<T> { spec fn ctx(self) -> Option<T>; fn context(self, m: &'static str) -> (r: Result<T, AnyError>) ensures match self.ctx() { Some(x) => r is Ok && r->Ok_0 == x, None => r is Err }; }
impl<T> Context<T> for Option<T> { open spec fn ctx(self) -> Option<T> { self }
    #[verifier::external_body]
    fn context(self, m: &'static str) -> Result<T, AnyError> { unimplemented!() } }
//@item host/src/state_patch_builder.rs | struct | StatePatchBuilder
/// exits of the first k pairs: the state's exit epoch where the two differ
pub open spec fn diff_upto(old: Seq<(usize, Epoch)>, new: Seq<(usize, Epoch)>, s: Seq<Validator>, t: Seq<&Validator>, k: int) -> bool {
    forall|i: usize| #[trigger] lookup(new, i) == if i < k && s[i as int].exit_epoch != t[i as int].exit_epoch { Some(Epoch { v: s[i as int].exit_epoch }) } else { lookup(old, i) }
}
impl StatePatchBuilder {
//@fn host/src/state_patch_builder.rs | StatePatchBuilder::new
//@ensures
        vr.state == state, vr.patch.randao_mixes@ == Seq::<(u32, B256)>::empty(), vr.patch.validator_exits@ == Seq::<(usize, Epoch)>::empty(),
//@end
//@fn host/src/state_patch_builder.rs | StatePatchBuilder::randao_mix
//@ensures
        final(self).state == old(self).state, final(self).patch.validator_exits@ == old(self).patch.validator_exits@,
        if idx < mixes_of(old(self).state.s).len() {
            vr is Ok && forall|j: u32| #[trigger] lookup(final(self).patch.randao_mixes@, j) == if j == idx { Some(b256_of(mixes_of(old(self).state.s)[idx as int].b@)) } else { lookup(old(self).patch.randao_mixes@, j) }
        } else { vr is Err && final(self).patch.randao_mixes@ == old(self).patch.randao_mixes@ },
//@end
//@fn host/src/state_patch_builder.rs | StatePatchBuilder::validator_diff
//@ensures
        final(self).state == old(self).state, final(self).patch.randao_mixes@ == old(self).patch.randao_mixes@,
        diff_upto(old(self).patch.validator_exits@, final(self).patch.validator_exits@, registry_of(old(self).state.s), validators@, min_i(registry_of(old(self).state.s).len() as int, validators@.len() as int)),
//@begin
        let ghost reg = registry_of(self.state.s);
        let ghost vs = validators@;
        let ghost old0 = self.patch.validator_exits@;
        let ghost start = *self;
//@loop 0
            invariant
                it.seq() == senum(szip(srefs(reg), vs)), it.seq().len() <= usize::MAX,
                self.state == start.state, self.patch.randao_mixes@ == start.patch.randao_mixes@,
                diff_upto(old0, self.patch.validator_exits@, reg, vs, it.index@),
//@end
//@fn host/src/state_patch_builder.rs | StatePatchBuilder::build
//@ensures
        vr == self.patch,
//@end
}
/// C26: a fresh patch after one comparison records exactly the differing exits
pub proof fn c26_fresh(new: Seq<(usize, Epoch)>, s: Seq<Validator>, t: Seq<&Validator>, i: usize)
    requires diff_upto(Seq::<(usize, Epoch)>::empty(), new, s, t, min_i(s.len() as int, t.len() as int)),
    ensures
        lookup(new, i) is Some <==> i < s.len() && i < t.len() && s[i as int].exit_epoch != t[i as int].exit_epoch,
        lookup(new, i) is Some ==> lookup(new, i)->0.v == s[i as int].exit_epoch,
{ lookup_empty::<usize, Epoch>(i); }
} // verus!
