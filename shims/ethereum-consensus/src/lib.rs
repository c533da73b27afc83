//! Stand-in for `ethereum-consensus`: the containers the host code reads, with their Merkle trees.
use alloy_primitives::B256;
use ssz_rs::{chunk_u64, h2, merkle, Chunk, GeneralizedIndex, GeneralizedIndexable, HashTreeRoot, MerkleizationError, Node, Path, PathElement, Prove, Record};

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub enum Fork { Phase0, Altair, Bellatrix, Capella, Deneb, Electra, Fulu }
impl std::fmt::Display for Fork { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }

macro_rules! bytes { ($t:ident, $n:expr) => {
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct $t(pub Vec<u8>);
    impl $t { pub fn as_slice(&self) -> &[u8] { &self.0 } }
    impl std::ops::Deref for $t { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
    impl AsRef<[u8]> for $t { fn as_ref(&self) -> &[u8] { &self.0 } }
} }
pub mod primitives { pub use super::{BlsPublicKey, Bytes32}; pub type Root = super::B256; }
bytes!(BlsPublicKey, 48);
bytes!(Bytes32, 32);

/// the nodes of a container of fixed leaves
fn inside(v: &[Chunk], d: u32, s: &[bool]) -> Option<Chunk> {
    if s.len() > d as usize { return None; }
    let pos = s.iter().fold(0usize, |a, b| a * 2 + *b as usize);
    let rest = d - s.len() as u32;
    Some(merkle(&v[(pos << rest).min(v.len())..((pos + 1) << rest).min(v.len())], rest))
}

pub mod phase0 {
    use super::*;
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct Validator {
        pub public_key: BlsPublicKey, pub withdrawal_credentials: Bytes32, pub effective_balance: u64, pub slashed: bool,
        pub activation_eligibility_epoch: u64, pub activation_epoch: u64, pub exit_epoch: u64, pub withdrawable_epoch: u64,
    }
    impl Validator {
        fn key_chunks(&self) -> [Chunk; 2] { let mut c = [[0; 32]; 2]; for (i, b) in self.public_key.0.iter().enumerate() { c[i / 32][i % 32] = *b; } c }
        fn leaves(&self) -> Vec<Chunk> {
            let k = self.key_chunks();
            let mut w = [0; 32]; w.copy_from_slice(&self.withdrawal_credentials.0);
            let mut s = [0; 32]; s[0] = self.slashed as u8;
            vec![h2(&k[0], &k[1]), w, chunk_u64(self.effective_balance), s, chunk_u64(self.activation_eligibility_epoch), chunk_u64(self.activation_epoch), chunk_u64(self.exit_epoch), chunk_u64(self.withdrawable_epoch)]
        }
    }
    impl Record for Validator {
        const DEPTH: u32 = 3;
        fn field_index(n: &str) -> Option<usize> { ["public_key", "withdrawal_credentials", "effective_balance", "slashed", "activation_eligibility_epoch", "activation_epoch", "exit_epoch", "withdrawable_epoch"].iter().position(|x| *x == n) }
        fn root(&self) -> Chunk { merkle(&self.leaves(), 3) }
        fn node(&self, s: &[bool]) -> Option<Chunk> {
            match s { [false, false, false, last] => Some(self.key_chunks()[*last as usize]), _ => inside(&self.leaves(), 3, s) }
        }
        fn sub_index(path: Path) -> Result<GeneralizedIndex, MerkleizationError> {
            match path {
                [] => Ok(1),
                [PathElement::Field(f), rest @ ..] => {
                    let i = 8 + Self::field_index(f).ok_or(MerkleizationError::InvalidPath)?;
                    match rest { [] => Ok(i), [PathElement::Index(b)] if i == 8 && *b < 48 => Ok(16 + b / 32), _ => Err(MerkleizationError::InvalidPath) }
                }
                _ => Err(MerkleizationError::InvalidPath),
            }
        }
    }
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct BeaconBlockHeader { pub slot: u64, pub proposer_index: usize, pub parent_root: B256, pub state_root: B256, pub body_root: B256 }
    impl BeaconBlockHeader { fn leaves(&self) -> Vec<Chunk> { vec![chunk_u64(self.slot), chunk_u64(self.proposer_index as u64), self.parent_root.0, self.state_root.0, self.body_root.0] } }
    impl HashTreeRoot for BeaconBlockHeader { fn hash_tree_root(&self) -> Result<B256, MerkleizationError> { Ok(merkle(&self.leaves(), 3).into()) } }
    impl GeneralizedIndexable for BeaconBlockHeader {
        fn generalized_index(path: Path) -> Result<GeneralizedIndex, MerkleizationError> {
            match path { [] => Ok(1), [PathElement::Field(f)] => ["slot", "proposer_index", "parent_root", "state_root", "body_root"].iter().position(|x| x == f).map(|i| 8 + i).ok_or(MerkleizationError::InvalidPath), _ => Err(MerkleizationError::InvalidPath) }
        }
    }
    impl Prove for BeaconBlockHeader {
        fn chunk(&self, g: GeneralizedIndex) -> Result<Node, MerkleizationError> { inside(&self.leaves(), 3, &ssz_rs::steps(g)?).map(Node).ok_or(MerkleizationError::NoNode(g)) }
    }
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct Fork { pub previous_version: [u8; 4], pub current_version: [u8; 4], pub epoch: u64 }
}
pub mod electra {
    use super::*;
    pub use super::phase0::{BeaconBlockHeader, Validator};
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct Checkpoint { pub epoch: u64, pub root: B256 }
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct AttestationData { pub slot: u64, pub index: usize, pub beacon_block_root: B256, pub source: Checkpoint, pub target: Checkpoint }
    /// SSZ bytes of an attestation
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct Attestation<const V: usize, const C: usize> { pub ssz: Vec<u8> }
    impl<const V: usize, const C: usize> ssz_rs::Serialize for Attestation<V, C> {
        fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, ssz_rs::SerializeError> { b.extend(&self.ssz); Ok(self.ssz.len()) }
    }
    #[derive(Debug, Clone)]
    pub struct BeaconBlockBody { pub attestations: Vec<Attestation<131072, 64>> }
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct SignedBeaconBlockHeader { pub message: BeaconBlockHeader, pub signature: Vec<u8> }
    pub mod mainnet {
        pub use super::SignedBeaconBlockHeader;
        pub const VALIDATOR_REGISTRY_LIMIT: usize = 1 << 40;
    }
    pub type Validators = ssz_rs::List<Validator, { mainnet::VALIDATOR_REGISTRY_LIMIT }>;
    /// the fields the code reads; every other field is a leaf of its own
    #[derive(Debug, Clone)]
    pub struct BeaconState { pub leaves: Vec<Chunk>, pub slot: u64, pub genesis_validators_root: B256, pub fork: super::phase0::Fork, pub latest_block_header: BeaconBlockHeader, pub validators: Validators, pub randao_mixes: Vec<Bytes32>, pub finalized: Checkpoint, pub earliest_exit_epoch: u64, pub earliest_consolidation_epoch: u64 }
    impl BeaconState {
        fn fork_leaves(&self) -> Vec<Chunk> { let v = |x: [u8; 4]| { let mut c = [0; 32]; c[..4].copy_from_slice(&x); c }; vec![v(self.fork.previous_version), v(self.fork.current_version), chunk_u64(self.fork.epoch)] }
        fn finalized_leaves(&self) -> Vec<Chunk> { vec![chunk_u64(self.finalized.epoch), self.finalized.root.0] }
        fn top(&self) -> Result<Vec<Chunk>, MerkleizationError> {
            let mut l = self.leaves.clone();
            l.resize(37, [0; 32]);
            l[1] = self.genesis_validators_root.0;
            l[2] = chunk_u64(self.slot);
            l[3] = merkle(&self.fork_leaves(), 2);
            l[4] = self.latest_block_header.hash_tree_root()?.0;
            l[11] = self.validators.hash_tree_root()?.0;
            l[20] = merkle(&self.finalized_leaves(), 1);
            l[31] = chunk_u64(self.earliest_exit_epoch);
            l[33] = chunk_u64(self.earliest_consolidation_epoch);
            Ok(l)
        }
    }
    impl HashTreeRoot for BeaconState { fn hash_tree_root(&self) -> Result<B256, MerkleizationError> { Ok(merkle(&self.top()?, 6).into()) } }
    impl GeneralizedIndexable for BeaconState {
        fn generalized_index(path: Path) -> Result<GeneralizedIndex, MerkleizationError> {
            let f = |n: &str| ["genesis_time", "genesis_validators_root", "slot", "fork", "latest_block_header", "block_roots", "state_roots", "historical_roots", "eth1_data", "eth1_data_votes", "eth1_deposit_index", "validators", "balances", "randao_mixes", "slashings",
                "previous_epoch_participation", "current_epoch_participation", "justification_bits", "previous_justified_checkpoint", "current_justified_checkpoint", "finalized_checkpoint", "inactivity_scores", "current_sync_committee", "next_sync_committee",
                "latest_execution_payload_header", "next_withdrawal_index", "next_withdrawal_validator_index", "historical_summaries", "deposit_requests_start_index", "deposit_balance_to_consume", "exit_balance_to_consume", "earliest_exit_epoch", "consolidation_balance_to_consume",
                "earliest_consolidation_epoch", "pending_deposits", "pending_partial_withdrawals", "pending_consolidations"].iter().position(|x| *x == n).map(|i| 64 + i);
            match path {
                [] => Some(1),
                [PathElement::Field(a)] => f(a),
                [PathElement::Field(a), PathElement::Field(b)] => match (a.as_str(), b.as_str()) {
                    ("fork", b) => ["previous_version", "current_version", "epoch"].iter().position(|x| *x == b).map(|i| 67 * 4 + i),
                    ("finalized_checkpoint", "epoch") => Some(168), ("finalized_checkpoint", "root") => Some(169),
                    ("current_justified_checkpoint", "epoch") => Some(166), ("previous_justified_checkpoint", "epoch") => Some(164), _ => None },
                _ => None,
            }.ok_or(MerkleizationError::InvalidPath)
        }
    }
    impl Prove for BeaconState {
        fn chunk(&self, g: GeneralizedIndex) -> Result<Node, MerkleizationError> {
            let s = ssz_rs::steps(g)?;
            let no = MerkleizationError::NoNode(g);
            if s.len() <= 6 { return inside(&self.top()?, 6, &s).map(Node).ok_or(no); }
            match g >> (s.len() - 6) { 67 => inside(&self.fork_leaves(), 2, &s[6..]), 84 => inside(&self.finalized_leaves(), 1, &s[6..]), _ => None }.map(Node).ok_or(no)
        }
    }
}
pub mod types {
    use super::electra::BeaconBlockBody;
    #[derive(Debug, Clone, Copy)]
    pub enum BeaconBlockBodyRef<'a> { Phase0(&'a u64), Deneb(&'a u64), Electra(&'a BeaconBlockBody), Fulu(&'a BeaconBlockBody) }
    pub mod mainnet {
        use super::*;
        #[derive(Debug, Clone)]
        pub enum BeaconBlock { Phase0(u64), Deneb(u64), Electra(BeaconBlockBody), Fulu(BeaconBlockBody) }
        impl BeaconBlock { pub fn body(&self) -> BeaconBlockBodyRef<'_> { match self { Self::Phase0(x) => BeaconBlockBodyRef::Phase0(x), Self::Deneb(x) => BeaconBlockBodyRef::Deneb(x), Self::Electra(b) => BeaconBlockBodyRef::Electra(b), Self::Fulu(b) => BeaconBlockBodyRef::Fulu(b) } } }
    }
}
