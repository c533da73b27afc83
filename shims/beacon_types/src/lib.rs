//! Stand-in for lighthouse's `types` (feature `legacy-arith`): the types and functions the code uses.
use alloy_primitives::B256;
use sha2::{Digest, Sha256};
use std::fmt;
use tree_hash::TreeHash;

pub use bls::{AggregateSignature, PublicKey, SecretKey};
pub use safe_arith::{ArithError, SafeArith};
pub type Hash256 = B256;

fn h2(a: &[u8], b: &[u8]) -> [u8; 32] { let mut h = Sha256::new(); h.update(a); h.update(b); h.finalize().into() }
fn chunk_u64(x: u64) -> [u8; 32] { let mut c = [0u8; 32]; c[..8].copy_from_slice(&x.to_le_bytes()); c }
fn merkle(mut v: Vec<[u8; 32]>) -> [u8; 32] {
    v.resize(v.len().next_power_of_two(), [0; 32]);
    while v.len() > 1 { v = v.chunks(2).map(|p| h2(&p[0], &p[1])).collect(); }
    v[0]
}

// ---------------------------------------------------------------------------------------------
// Slot and Epoch
macro_rules! num { ($t:ident) => {
    #[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
    #[repr(transparent)]
    pub struct $t(u64);
    impl $t {
        pub const fn new(x: u64) -> Self { Self(x) }
        pub fn as_u64(self) -> u64 { self.0 }
        pub fn as_usize(self) -> usize { self.0 as usize }
        pub fn saturating_add<T: Into<$t>>(&self, o: T) -> $t { $t(self.0.saturating_add(o.into().0)) }
        pub fn saturating_sub<T: Into<$t>>(&self, o: T) -> $t { $t(self.0.saturating_sub(o.into().0)) }
        pub fn is_power_of_two(&self) -> bool { self.0.is_power_of_two() }
    }
    impl fmt::Debug for $t { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, concat!(stringify!($t), "({})"), self.0) } }
    impl fmt::Display for $t { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.0) } }
    impl From<u64> for $t { fn from(x: u64) -> Self { Self(x) } }
    impl From<$t> for u64 { fn from(x: $t) -> u64 { x.0 } }
    impl PartialEq<u64> for $t { fn eq(&self, o: &u64) -> bool { self.0 == *o } }
    impl PartialOrd<u64> for $t { fn partial_cmp(&self, o: &u64) -> Option<std::cmp::Ordering> { self.0.partial_cmp(o) } }
    num!(@op $t, $t); num!(@op $t, u64);
    impl SafeArith<$t> for $t {
        const ZERO: Self = $t(0);
        const ONE: Self = $t(1);
        fn safe_add(&self, o: $t) -> Result<Self, ArithError> { self.0.safe_add(o.0).map($t) }
        fn safe_sub(&self, o: $t) -> Result<Self, ArithError> { self.0.safe_sub(o.0).map($t) }
        fn safe_mul(&self, o: $t) -> Result<Self, ArithError> { self.0.safe_mul(o.0).map($t) }
        fn safe_div(&self, o: $t) -> Result<Self, ArithError> { self.0.safe_div(o.0).map($t) }
        fn safe_rem(&self, o: $t) -> Result<Self, ArithError> { self.0.safe_rem(o.0).map($t) }
    }
    impl SafeArith<u64> for $t {
        const ZERO: Self = $t(0);
        const ONE: Self = $t(1);
        fn safe_add(&self, o: u64) -> Result<Self, ArithError> { self.0.safe_add(o).map($t) }
        fn safe_sub(&self, o: u64) -> Result<Self, ArithError> { self.0.safe_sub(o).map($t) }
        fn safe_mul(&self, o: u64) -> Result<Self, ArithError> { self.0.safe_mul(o).map($t) }
        fn safe_div(&self, o: u64) -> Result<Self, ArithError> { self.0.safe_div(o).map($t) }
        fn safe_rem(&self, o: u64) -> Result<Self, ArithError> { self.0.safe_rem(o).map($t) }
    }
}; (@op $t:ident, $r:ty) => {
    impl std::ops::Add<$r> for $t { type Output = $t; fn add(self, o: $r) -> $t { $t(self.0.saturating_add(u64::from(o))) } }
    impl std::ops::Sub<$r> for $t { type Output = $t; fn sub(self, o: $r) -> $t { $t(self.0.saturating_sub(u64::from(o))) } }
    impl std::ops::Mul<$r> for $t { type Output = $t; fn mul(self, o: $r) -> $t { $t(self.0.saturating_mul(u64::from(o))) } }
    impl std::ops::Div<$r> for $t { type Output = $t; fn div(self, o: $r) -> $t { $t(self.0 / u64::from(o)) } }
    impl std::ops::Rem<$r> for $t { type Output = $t; fn rem(self, o: $r) -> $t { $t(self.0 % u64::from(o)) } }
    impl std::ops::AddAssign<$r> for $t { fn add_assign(&mut self, o: $r) { *self = *self + o } }
    impl std::ops::SubAssign<$r> for $t { fn sub_assign(&mut self, o: $r) { *self = *self - o } }
}}
num!(Slot);
num!(Epoch);
impl Slot { pub fn epoch(self, slots_per_epoch: u64) -> Epoch { Epoch(self.0 / slots_per_epoch) } }
impl Epoch {
    pub fn start_slot(self, slots_per_epoch: u64) -> Slot { Slot(self.0.saturating_mul(slots_per_epoch)) }
    pub fn end_slot(self, slots_per_epoch: u64) -> Slot { Slot(self.0.saturating_add(1).saturating_mul(slots_per_epoch).saturating_sub(1)) }
}

// ---------------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
pub struct Checkpoint { pub epoch: Epoch, pub root: Hash256 }
impl TreeHash for Checkpoint {
    fn tree_hash_type() -> tree_hash::TreeHashType { tree_hash::TreeHashType::Container }
    fn tree_hash_packed_encoding(&self) -> Vec<u8> { unreachable!() }
    fn tree_hash_packing_factor() -> usize { unreachable!() }
    fn tree_hash_root(&self) -> B256 { merkle(vec![chunk_u64(self.epoch.0), self.root.0]).into() }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, serde::Serialize, serde::Deserialize)]
pub enum ForkName { Base, Altair, Bellatrix, Capella, Deneb, Electra, Fulu, Gloas }
impl fmt::Display for ForkName { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{self:?}") } }

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
pub struct Fork { pub previous_version: [u8; 4], pub current_version: [u8; 4], pub epoch: Epoch }
impl Fork { pub fn get_fork_version(&self, epoch: Epoch) -> [u8; 4] { if epoch < self.epoch { self.previous_version } else { self.current_version } } }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Domain { BlsToExecutionChange, BeaconProposer, BeaconAttester, Randao, Deposit, VoluntaryExit, SelectionProof, AggregateAndProof, SyncCommittee }

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Error { InsufficientValidators, ArithError(ArithError), InvalidBitfield }
impl From<ArithError> for Error { fn from(e: ArithError) -> Self { Error::ArithError(e) } }

#[derive(Clone, Debug, PartialEq)]
pub struct ChainSpec {
    pub config_name: Option<String>,
    pub far_future_epoch: Epoch,
    pub max_committees_per_slot: usize,
    pub target_committee_size: usize,
    pub min_per_epoch_churn_limit: u64,
    pub max_per_epoch_activation_exit_churn_limit: u64,
    pub churn_limit_quotient: u64,
    pub shuffle_round_count: u8,
    pub min_activation_balance: u64,
    pub max_effective_balance: u64,
    pub max_effective_balance_electra: u64,
    pub effective_balance_increment: u64,
    pub min_seed_lookahead: Epoch,
    pub max_seed_lookahead: Epoch,
    pub min_per_epoch_churn_limit_electra: u64,
    pub domain_beacon_proposer: u32,
    pub domain_beacon_attester: u32,
    pub genesis_slot: Slot,
    pub genesis_fork_version: [u8; 4],
    /// (fork, version, activation epoch) in fork order, genesis first
    pub forks: Vec<(ForkName, [u8; 4], Epoch)>,
}
impl ChainSpec {
    pub fn mainnet() -> Self {
        let forks = [
            (ForkName::Base, 0u8, 0u64), (ForkName::Altair, 1, 74240), (ForkName::Bellatrix, 2, 144896), (ForkName::Capella, 3, 194048),
            (ForkName::Deneb, 4, 269568), (ForkName::Electra, 5, 364032), (ForkName::Fulu, 6, 411392),
        ];
        Self {
            config_name: Some("mainnet".into()),
            far_future_epoch: Epoch::new(u64::MAX),
            max_committees_per_slot: 64,
            target_committee_size: 128,
            min_per_epoch_churn_limit: 4,
            max_per_epoch_activation_exit_churn_limit: 256_000_000_000,
            churn_limit_quotient: 65_536,
            shuffle_round_count: 90,
            min_activation_balance: 32_000_000_000,
            max_effective_balance: 32_000_000_000,
            max_effective_balance_electra: 2_048_000_000_000,
            effective_balance_increment: 1_000_000_000,
            min_seed_lookahead: Epoch::new(1),
            max_seed_lookahead: Epoch::new(4),
            min_per_epoch_churn_limit_electra: 128_000_000_000,
            domain_beacon_proposer: 0,
            domain_beacon_attester: 1,
            genesis_slot: Slot::new(0),
            genesis_fork_version: [0; 4],
            forks: forks.iter().map(|&(n, v, e)| (n, [v, 0, 0, 0], Epoch::new(e))).collect(),
        }
    }
    fn fork_index(&self, epoch: Epoch) -> usize { self.forks.iter().rposition(|f| f.2 <= epoch).unwrap_or(0) }
    pub fn fork_name_at_epoch(&self, epoch: Epoch) -> ForkName { self.forks[self.fork_index(epoch)].0 }
    pub fn fork_at_epoch(&self, epoch: Epoch) -> Fork {
        let i = self.fork_index(epoch);
        let prev = if i == 0 { self.forks[0].1 } else { self.forks[i - 1].1 };
        Fork { previous_version: prev, current_version: self.forks[i].1, epoch: self.forks[i].2 }
    }
    pub fn get_domain_constant(&self, d: Domain) -> u32 {
        match d {
            Domain::BeaconProposer => self.domain_beacon_proposer,
            Domain::BeaconAttester => self.domain_beacon_attester,
            Domain::Randao => 2, Domain::Deposit => 3, Domain::VoluntaryExit => 4, Domain::SelectionProof => 5,
            Domain::AggregateAndProof => 6, Domain::SyncCommittee => 7, Domain::BlsToExecutionChange => 10,
        }
    }
    pub fn compute_domain(&self, d: Domain, version: [u8; 4], gvr: Hash256) -> Hash256 {
        let mut v = [0u8; 32];
        v[..4].copy_from_slice(&version);
        let root = h2(&v, &gvr[..]);
        let mut out = [0u8; 32];
        out[..4].copy_from_slice(&self.get_domain_constant(d).to_le_bytes());
        out[4..].copy_from_slice(&root[..28]);
        out.into()
    }
    pub fn get_domain(&self, epoch: Epoch, d: Domain, fork: &Fork, gvr: Hash256) -> Hash256 {
        self.compute_domain(d, fork.get_fork_version(epoch), gvr)
    }
    pub fn compute_activation_exit_epoch(&self, epoch: Epoch) -> Result<Epoch, ArithError> {
        epoch.safe_add(1u64)?.safe_add(self.max_seed_lookahead)
    }
}

// ---------------------------------------------------------------------------------------------
pub trait Unsigned { fn to_u64() -> u64; fn to_usize() -> usize { Self::to_u64() as usize } }
pub struct U<const N: u64>;
impl<const N: u64> Unsigned for U<N> { fn to_u64() -> u64 { N } }

pub trait EthSpec: 'static + Default + Sync + Send + Clone + fmt::Debug + PartialEq + Eq {
    type SlotsPerEpoch: Unsigned;
    type EpochsPerHistoricalVector: Unsigned;
    fn slots_per_epoch() -> u64 { Self::SlotsPerEpoch::to_u64() }
    fn epochs_per_historical_vector() -> usize { Self::EpochsPerHistoricalVector::to_usize() }
    fn get_committee_count_per_slot(active: usize, spec: &ChainSpec) -> Result<usize, Error> {
        let per_slot = active.safe_div(Self::SlotsPerEpoch::to_usize())?.safe_div(spec.target_committee_size)?;
        Ok(std::cmp::max(1, std::cmp::min(spec.max_committees_per_slot, per_slot)))
    }
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct MainnetEthSpec;
impl EthSpec for MainnetEthSpec { type SlotsPerEpoch = U<32>; type EpochsPerHistoricalVector = U<65536>; }
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct MinimalEthSpec;
impl EthSpec for MinimalEthSpec { type SlotsPerEpoch = U<8>; type EpochsPerHistoricalVector = U<64>; }

// ---------------------------------------------------------------------------------------------
pub trait SignedRoot { fn object_root(&self) -> Hash256; fn signing_root(&self, domain: Hash256) -> Hash256 { h2(&self.object_root()[..], &domain[..]).into() } }

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct AttestationData { pub slot: Slot, pub index: u64, pub beacon_block_root: Hash256, pub source: Checkpoint, pub target: Checkpoint }
impl SignedRoot for AttestationData {
    fn object_root(&self) -> Hash256 {
        merkle(vec![chunk_u64(self.slot.0), chunk_u64(self.index), self.beacon_block_root.0, self.source.tree_hash_root().0, self.target.tree_hash_root().0]).into()
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct BitList(pub Vec<bool>);
impl BitList {
    pub fn with_capacity(n: usize) -> Result<Self, Error> { Ok(Self(vec![false; n])) }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn get(&self, i: usize) -> Result<bool, Error> { self.0.get(i).copied().ok_or(Error::InvalidBitfield) }
    pub fn set(&mut self, i: usize, v: bool) -> Result<(), Error> { *self.0.get_mut(i).ok_or(Error::InvalidBitfield)? = v; Ok(()) }
    pub fn iter(&self) -> impl Iterator<Item = bool> + '_ { self.0.iter().copied() }
    pub fn num_set_bits(&self) -> usize { self.0.iter().filter(|b| **b).count() }
}

#[derive(Clone, Debug, PartialEq)]
pub struct AttestationElectra<E: EthSpec> {
    pub aggregation_bits: BitList,
    pub data: AttestationData,
    pub signature: AggregateSignature,
    /// MAX_COMMITTEES_PER_SLOT bits
    pub committee_bits: BitList,
    pub _p: std::marker::PhantomData<E>,
}
impl<E: EthSpec> AttestationElectra<E> {
    pub fn get_committee_indices(&self) -> Vec<u64> { self.committee_bits.iter().enumerate().filter_map(|(i, b)| b.then_some(i as u64)).collect() }
}
#[derive(Clone, Debug, PartialEq)]
pub struct AttestationBase<E: EthSpec> { pub aggregation_bits: BitList, pub data: AttestationData, pub signature: AggregateSignature, pub _p: std::marker::PhantomData<E> }

#[derive(Clone, Debug, PartialEq)]
pub enum Attestation<E: EthSpec> { Base(AttestationBase<E>), Electra(AttestationElectra<E>) }
impl<E: EthSpec> Attestation<E> {
    pub fn data(&self) -> &AttestationData { match self { Attestation::Base(a) => &a.data, Attestation::Electra(a) => &a.data } }
    pub fn as_electra(&self) -> Result<&AttestationElectra<E>, ()> { match self { Attestation::Electra(a) => Ok(a), _ => Err(()) } }
    pub fn to_ref(&self) -> AttestationRef<'_, E> { AttestationRef(self) }
}
pub struct AttestationRef<'a, E: EthSpec>(&'a Attestation<E>);

pub mod attestation {
    use super::*;
    use ssz::{Decode, DecodeError, Encode};
    pub struct AttestationRefOnDisk<'a, E: EthSpec>(&'a Attestation<E>);
    impl<'a, E: EthSpec> From<AttestationRef<'a, E>> for AttestationRefOnDisk<'a, E> { fn from(a: AttestationRef<'a, E>) -> Self { Self(a.0) } }
    pub struct AttestationOnDisk<E: EthSpec>(Attestation<E>);
    impl<E: EthSpec> From<AttestationOnDisk<E>> for Attestation<E> { fn from(a: AttestationOnDisk<E>) -> Self { a.0 } }
    fn bits(b: &BitList, out: &mut Vec<u8>) { out.extend((b.0.len() as u32).to_le_bytes()); out.extend(b.0.iter().map(|x| *x as u8)); }
    impl<E: EthSpec> Encode for AttestationRefOnDisk<'_, E> {
        fn as_ssz_bytes(&self) -> Vec<u8> {
            let (tag, agg, d, s, c) = match self.0 {
                Attestation::Base(a) => (0u8, &a.aggregation_bits, &a.data, &a.signature, None),
                Attestation::Electra(a) => (1, &a.aggregation_bits, &a.data, &a.signature, Some(&a.committee_bits)),
            };
            let mut o = vec![tag];
            for x in [d.slot.as_u64(), d.index] { o.extend(x.to_le_bytes()); }
            o.extend(&d.beacon_block_root[..]);
            for c in [&d.source, &d.target] { o.extend(c.epoch.as_u64().to_le_bytes()); o.extend(&c.root[..]); }
            bits(agg, &mut o);
            if let Some(c) = c { bits(c, &mut o); }
            o.extend((s.shares.len() as u32).to_le_bytes());
            for (m, p) in &s.shares { o.extend(&m[..]); o.extend(p.serialize()); }
            o
        }
    }
    struct R<'a>(&'a [u8]);
    impl<'a> R<'a> {
        fn take(&mut self, n: usize) -> Result<&'a [u8], DecodeError> { if self.0.len() < n { return Err(DecodeError::Invalid("short")); } let (a, b) = self.0.split_at(n); self.0 = b; Ok(a) }
        fn u64(&mut self) -> Result<u64, DecodeError> { Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap())) }
        fn u32(&mut self) -> Result<usize, DecodeError> { Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()) as usize) }
        fn h(&mut self) -> Result<B256, DecodeError> { Ok(B256::from_slice(self.take(32)?)) }
        fn bits(&mut self) -> Result<BitList, DecodeError> { let n = self.u32()?; Ok(BitList(self.take(n)?.iter().map(|x| *x != 0).collect())) }
        fn cp(&mut self) -> Result<Checkpoint, DecodeError> { Ok(Checkpoint { epoch: Epoch::new(self.u64()?), root: self.h()? }) }
    }
    impl<E: EthSpec> Decode for AttestationElectra<E> {
        fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
            match Attestation::from(AttestationOnDisk::from_ssz_bytes(&[&[1], b].concat())?) { Attestation::Electra(a) => Ok(a), _ => Err(DecodeError::Invalid("tag")) }
        }
    }
    impl<E: EthSpec> Decode for AttestationOnDisk<E> {
        fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
            let mut r = R(b);
            let tag = r.take(1)?[0];
            let data = AttestationData { slot: Slot::new(r.u64()?), index: r.u64()?, beacon_block_root: r.h()?, source: r.cp()?, target: r.cp()? };
            let aggregation_bits = r.bits()?;
            let committee_bits = if tag == 1 { r.bits()? } else { BitList::default() };
            let n = r.u32()?;
            let mut signature = AggregateSignature::default();
            for _ in 0..n { let m = r.h()?; let p = PublicKey::deserialize(r.take(48)?).map_err(|_| DecodeError::Invalid("pk"))?; signature.sign(m, &p); }
            if !r.0.is_empty() { return Err(DecodeError::Invalid("trailing")); }
            let _p = std::marker::PhantomData;
            Ok(Self(match tag { 0 => Attestation::Base(AttestationBase { aggregation_bits, data, signature, _p }),
                1 => Attestation::Electra(AttestationElectra { aggregation_bits, data, signature, committee_bits, _p }), _ => return Err(DecodeError::Invalid("tag")) }))
        }
    }
}

// ---------------------------------------------------------------------------------------------
pub fn compute_committee_index_in_epoch(slot: Slot, slots_per_epoch: usize, committees_per_slot: usize, committee_index: usize) -> usize {
    (slot.as_usize() % slots_per_epoch) * committees_per_slot + committee_index
}
pub fn compute_committee_range_in_epoch(epoch_committee_count: usize, index_in_epoch: usize, shuffling_len: usize) -> Option<std::ops::Range<usize>> {
    if epoch_committee_count == 0 || index_in_epoch >= epoch_committee_count { return None; }
    let start = (shuffling_len * index_in_epoch) / epoch_committee_count;
    let end = (shuffling_len * (index_in_epoch + 1)) / epoch_committee_count;
    Some(start..end)
}
pub fn epoch_committee_count(committees_per_slot: usize, slots_per_epoch: usize) -> usize { committees_per_slot * slots_per_epoch }
impl std::str::FromStr for Slot { type Err = std::num::ParseIntError; fn from_str(s: &str) -> Result<Self, Self::Err> { s.parse().map(Slot::new) } }
