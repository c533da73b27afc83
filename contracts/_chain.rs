// Models of beacon_types (lighthouse types): chain specification, forks, domains, attestations; and of the
// std collections the core crate uses.
verus! {
global size_of usize == 8;
pub type CommitteeIndex = usize;
pub type ValidatorIndex = usize;
pub type RandaoMixIndex = u32;
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub struct BtCheckpoint { pub epoch: Epoch, pub root: Root }
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum ForkName { Base, Altair, Bellatrix, Capella, Deneb, Electra, Fulu, Gloas }
impl ForkName {
    pub open spec fn rank(self) -> int { match self { ForkName::Base => 0, ForkName::Altair => 1, ForkName::Bellatrix => 2, ForkName::Capella => 3, ForkName::Deneb => 4, ForkName::Electra => 5, ForkName::Fulu => 6, ForkName::Gloas => 7 } }
}
impl PartialOrd for ForkName {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &ForkName) -> Option<Ordering> { unimplemented!() }
    #[verifier::external_body]
    fn lt(&self, o: &ForkName) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn le(&self, o: &ForkName) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn gt(&self, o: &ForkName) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn ge(&self, o: &ForkName) -> bool { unimplemented!() }
}
impl PartialOrdSpecImpl for ForkName {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &ForkName) -> Option<Ordering> { if self.rank() < o.rank() { Some(Ordering::Less) } else if self.rank() == o.rank() { Some(Ordering::Equal) } else { Some(Ordering::Greater) } }
}
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub struct Fork { pub previous_version: [u8; 4], pub current_version: [u8; 4], pub epoch: Epoch }
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum Domain { BlsToExecutionChange, BeaconProposer, BeaconAttester, Randao, Deposit, VoluntaryExit, SelectionProof, AggregateAndProof, SyncCommittee }
pub struct ChainSpec {
    pub far_future_epoch: Epoch, pub max_committees_per_slot: usize, pub target_committee_size: usize, pub min_per_epoch_churn_limit: u64,
    pub max_per_epoch_activation_exit_churn_limit: u64, pub churn_limit_quotient: u64, pub shuffle_round_count: u8, pub min_activation_balance: u64,
    pub max_effective_balance: u64, pub max_effective_balance_electra: u64, pub effective_balance_increment: u64, pub min_seed_lookahead: Epoch,
    pub max_seed_lookahead: Epoch, pub min_per_epoch_churn_limit_electra: u64, pub domain_beacon_proposer: u32, pub domain_beacon_attester: u32,
    pub genesis_slot: Slot, pub genesis_fork_version: [u8; 4], pub vf_forks: int,
}
pub uninterp spec fn fork_name_s(s: ChainSpec, e: Epoch) -> ForkName;
pub uninterp spec fn fork_s(s: ChainSpec, e: Epoch) -> Fork;
pub uninterp spec fn domain_constant_s(s: ChainSpec, d: Domain) -> u32;
pub uninterp spec fn domain_s(s: ChainSpec, e: Epoch, d: Domain, f: Fork, gvr: Root) -> B256;
impl ChainSpec {
    #[verifier::external_body]
    pub fn fork_name_at_epoch(&self, e: Epoch) -> (r: ForkName) ensures r == fork_name_s(*self, e) { unimplemented!() }
    #[verifier::external_body]
    pub fn fork_at_epoch(&self, e: Epoch) -> (r: Fork) ensures r == fork_s(*self, e) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_domain_constant(&self, d: Domain) -> (r: u32) ensures r == domain_constant_s(*self, d) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_domain(&self, e: Epoch, d: Domain, f: &Fork, gvr: Root) -> (r: B256) ensures r == domain_s(*self, e, d, *f, gvr) { unimplemented!() }
    #[verifier::external_body]
    pub fn compute_activation_exit_epoch(&self, e: Epoch) -> (r: core::result::Result<Epoch, ArithError>)
        ensures r == (if e.v + 1 + self.max_seed_lookahead.v <= u64::MAX { Ok::<Epoch, ArithError>(Epoch { v: (e.v + 1 + self.max_seed_lookahead.v) as u64 }) } else { Err::<Epoch, ArithError>(ArithError::Overflow) })
    { unimplemented!() }
}
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum BtError { InsufficientValidators, ArithError(ArithError), InvalidBitfield }

// typenum constants and the compile-time presets
pub trait Unsigned { spec fn val() -> u64; fn to_u64() -> (r: u64) ensures r == Self::val(); fn to_usize() -> (r: usize) ensures r == Self::val(); }
pub open spec fn min_i(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn max_i(a: int, b: int) -> int { if a < b { b } else { a } }
pub trait EthSpec: Sized {
    type SlotsPerEpoch: Unsigned;
    type EpochsPerHistoricalVector: Unsigned;
    /// the compile-time presets are positive 32-bit numbers
    proof fn vf_bounds() ensures 0 < Self::SlotsPerEpoch::val() <= 0xffff_ffff, 0 < Self::EpochsPerHistoricalVector::val() <= 0xffff_ffff;
    fn slots_per_epoch() -> (r: u64) ensures r == Self::SlotsPerEpoch::val(), 0 < r <= 0xffff_ffff;
    fn epochs_per_historical_vector() -> (r: usize) ensures r == Self::EpochsPerHistoricalVector::val(), r > 0, r <= 0xffff_ffff;
    fn get_committee_count_per_slot(n: usize, spec: &ChainSpec) -> (r: core::result::Result<usize, BtError>)
        ensures match committees_per_slot_s(Self::SlotsPerEpoch::val() as int, n as int, *spec) { Some(c) => r == Ok::<usize, BtError>(c as usize), None => r is Err };
}
pub open spec fn spe<E: EthSpec>() -> int { E::SlotsPerEpoch::val() as int }
pub open spec fn ephv<E: EthSpec>() -> int { E::EpochsPerHistoricalVector::val() as int }
pub open spec fn committees_per_slot_s(spe: int, n: int, s: ChainSpec) -> Option<int> {
    if s.target_committee_size == 0 || spe == 0 { None } else { Some(max_i(1, min_i(s.max_committees_per_slot as int, n / spe / s.target_committee_size as int))) }
}

// ---- attestations ----
#[verifier::external_body]
pub struct BitList { v: Vec<bool> }
impl View for BitList { type V = Seq<bool>; uninterp spec fn view(&self) -> Seq<bool>; }
impl BitList {
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: core::result::Result<bool, BtError>) ensures i < self@.len() ==> r == Ok::<bool, BtError>(self@[i as int]), i >= self@.len() ==> r is Err { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn num_set_bits(&self) -> (r: usize) ensures r <= self@.len() { unimplemented!() }
}
#[verifier::external_body]
pub struct PublicKey { x: u8 }
#[verifier::external_body]
pub struct AggregateSignature { x: u8 }
pub uninterp spec fn aggregate_ok(s: AggregateSignature, root: B256, keys: Seq<PublicKey>) -> bool;
impl AggregateSignature {
    #[verifier::external_body]
    pub fn eth_fast_aggregate_verify(&self, root: B256, keys: &[&PublicKey]) -> (r: bool) ensures r == aggregate_ok(*self, root, deref_seq(keys@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn fast_aggregate_verify(&self, root: B256, keys: &[&PublicKey]) -> bool { unimplemented!() }
}
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub struct AttestationData { pub slot: Slot, pub index: u64, pub beacon_block_root: Root, pub source: BtCheckpoint, pub target: BtCheckpoint }
pub uninterp spec fn signing_root_s(d: AttestationData, domain: B256) -> B256;
impl AttestationData {
    #[verifier::external_body]
    pub fn signing_root(&self, domain: B256) -> (r: B256) ensures r == signing_root_s(*self, domain) { unimplemented!() }
}
#[verifier::reject_recursive_types(E)]
pub struct AttestationElectra<E: EthSpec> { pub aggregation_bits: BitList, pub data: AttestationData, pub signature: AggregateSignature, pub committee_bits: BitList, pub vf_p: core::marker::PhantomData<E> }
#[verifier::reject_recursive_types(E)]
pub struct AttestationBase<E: EthSpec> { pub aggregation_bits: BitList, pub data: AttestationData, pub signature: AggregateSignature, pub vf_p: core::marker::PhantomData<E> }
#[verifier::reject_recursive_types(E)]
pub enum Attestation<E: EthSpec> { Base(AttestationBase<E>), Electra(AttestationElectra<E>) }
/// positions of the set bits, ascending
pub open spec fn set_bits(b: Seq<bool>, k: int) -> Seq<u64> decreases k {
    if k <= 0 { Seq::empty() } else if b[k - 1] { set_bits(b, k - 1).push((k - 1) as u64) } else { set_bits(b, k - 1) }
}
impl<E: EthSpec> AttestationElectra<E> {
    #[verifier::external_body]
    pub fn get_committee_indices(&self) -> (r: Vec<u64>) ensures r@ == set_bits(self.committee_bits@, self.committee_bits@.len() as int), self.committee_bits@.len() <= 0xffff_ffff { unimplemented!() }
}
impl<E: EthSpec> Attestation<E> {
    pub open spec fn data_s(self) -> AttestationData { match self { Attestation::Base(a) => a.data, Attestation::Electra(a) => a.data } }
    #[verifier::external_body]
    pub fn data(&self) -> (r: &AttestationData) ensures *r == self.data_s() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_electra(&self) -> (r: core::result::Result<&AttestationElectra<E>, ()>)
        ensures match *self { Attestation::Electra(a) => r is Ok && *r->Ok_0 == a, _ => r is Err }
    { unimplemented!() }
}
pub mod beacon_types {
    pub use super::{BtCheckpoint as Checkpoint, BtError as Error, Epoch, Slot, Fork, ForkName, ChainSpec, EthSpec, Domain, AttestationData, Attestation};
    pub use super::{compute_committee_index_in_epoch, compute_committee_range_in_epoch, epoch_committee_count};
}
#[verifier::external_body]
pub fn compute_committee_index_in_epoch(slot: Slot, slots_per_epoch: usize, committees_per_slot: usize, index: usize) -> (r: usize)
    requires slots_per_epoch > 0, (slot.v as int % slots_per_epoch as int) * committees_per_slot + index <= usize::MAX,
    ensures r == (slot.v as int % slots_per_epoch as int) * committees_per_slot + index,
{ unimplemented!() }
#[verifier::external_body]
pub fn compute_committee_range_in_epoch(count: usize, index: usize, len: usize) -> (r: Option<Range<usize>>)
    requires len * (index + 1) <= usize::MAX, index < usize::MAX,
    ensures
        r is None <==> (count == 0 || index >= count),
        r is Some ==> r->0.start == (len * index) / count as int && r->0.end == (len * (index + 1)) / count as int,
{ unimplemented!() }
#[verifier::external_body]
pub fn epoch_committee_count(committees_per_slot: usize, slots_per_epoch: usize) -> (r: usize)
    requires committees_per_slot * slots_per_epoch <= usize::MAX,
    ensures r == committees_per_slot * slots_per_epoch,
{ unimplemented!() }

// ---- swap_or_not_shuffle ----
pub uninterp spec fn shuffle_s(s: Seq<usize>, rounds: u8, seed: Seq<u8>, forwards: bool) -> Option<Seq<usize>>;
#[verifier::external_body]
pub fn shuffle_list(input: Vec<usize>, rounds: u8, seed: &[u8], forwards: bool) -> (r: Option<Vec<usize>>)
    ensures
        r is Some <==> shuffle_s(input@, rounds, seed@, forwards) is Some,
        r is Some ==> r->0@ == shuffle_s(input@, rounds, seed@, forwards)->0,
        r is Some ==> r->0@.to_multiset() == input@.to_multiset(),
{ unimplemented!() }
impl VfSlice for B256 { type T = u8; open spec fn vf_seq(&self) -> Seq<u8> { bytes_of(*self) } }

#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub struct NonZeroUsize { pub v: usize }
impl NonZeroUsize {
    pub fn new(x: usize) -> (r: Option<NonZeroUsize>) ensures r == if x == 0 { None::<NonZeroUsize> } else { Some(NonZeroUsize { v: x }) } { if x == 0 { None } else { Some(NonZeroUsize { v: x }) } }
    pub fn vf_get(self) -> (r: usize) ensures r == self.v { self.v }
}
} // verus!
