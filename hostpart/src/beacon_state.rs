//! Stand-in: beacon states of the supported forks, and one older.
use ethereum_consensus::electra::{BeaconState as State, Validators};
use ethereum_consensus::phase0::{BeaconBlockHeader, Fork};
use ethereum_consensus::primitives::Bytes32;
use ssz_rs::HashTreeRoot;
use z_core::Root;
pub mod mainnet {
    use super::*;
    #[derive(Debug, Clone)]
    pub enum BeaconState { Deneb(State), Electra(State), Fulu(State) }
    impl BeaconState {
        fn inner(&self) -> &State { match self { Self::Deneb(s) | Self::Electra(s) | Self::Fulu(s) => s } }
        pub fn version(&self) -> ethereum_consensus::Fork { match self { Self::Deneb(_) => ethereum_consensus::Fork::Deneb, Self::Electra(_) => ethereum_consensus::Fork::Electra, Self::Fulu(_) => ethereum_consensus::Fork::Fulu } }
        pub fn genesis_validators_root(&self) -> Root { self.inner().genesis_validators_root }
        pub fn slot(&self) -> u64 { self.inner().slot }
        pub fn fork(&self) -> &Fork { &self.inner().fork }
        pub fn latest_block_header(&self) -> &BeaconBlockHeader { &self.inner().latest_block_header }
        pub fn validators(&self) -> &Validators { &self.inner().validators }
        pub fn randao_mixes(&self) -> &Vec<Bytes32> { &self.inner().randao_mixes }
        pub fn finalized_checkpoint(&self) -> &ethereum_consensus::electra::Checkpoint { &self.inner().finalized }
    }
    impl HashTreeRoot for BeaconState { fn hash_tree_root(&self) -> Result<Root, ssz_rs::MerkleizationError> { self.inner().hash_tree_root() } }
    /// an encoding whose last part is the registry, without a length of its own, as SSZ has it
    impl ssz_rs::Serialize for BeaconState {
        fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, ssz_rs::SerializeError> {
            let s = self.inner();
            if s.leaves.len() > 255 || s.randao_mixes.len() > 0xffff { return Err(ssz_rs::SerializeError::Invalid); }
            b.push(match self { Self::Deneb(_) => 0, Self::Electra(_) => 1, Self::Fulu(_) => 2 });
            for x in [s.slot, s.fork.epoch, s.finalized.epoch, s.earliest_exit_epoch, s.earliest_consolidation_epoch, s.latest_block_header.slot, s.latest_block_header.proposer_index as u64] { b.extend(x.to_le_bytes()); }
            b.extend(s.fork.previous_version); b.extend(s.fork.current_version);
            let h = &s.latest_block_header;
            for x in [s.genesis_validators_root, s.finalized.root, h.parent_root, h.state_root, h.body_root] { b.extend(x.0); }
            b.push(s.leaves.len() as u8);
            for x in &s.leaves { b.extend(x); }
            b.extend((s.randao_mixes.len() as u16).to_le_bytes());
            for x in &s.randao_mixes { b.extend(&x.0); }
            for v in s.validators.iter() {
                b.extend(&v.public_key.0); b.extend(&v.withdrawal_credentials.0); b.push(v.slashed as u8);
                for x in [v.effective_balance, v.activation_eligibility_epoch, v.activation_epoch, v.exit_epoch, v.withdrawable_epoch] { b.extend(x.to_le_bytes()); }
            }
            Ok(b.len())
        }
    }
    impl ssz_rs::Deserialize for BeaconState {
        fn deserialize(b: &[u8]) -> Result<Self, ssz_rs::DeserializeError> { read(b).ok_or(ssz_rs::DeserializeError::Invalid) }
    }
    fn read(mut b: &[u8]) -> Option<BeaconState> {
        use ethereum_consensus::electra::Validator;
        use ethereum_consensus::primitives::BlsPublicKey;
        let b = &mut b;
        fn take<'a>(b: &mut &'a [u8], n: usize) -> Option<&'a [u8]> { if b.len() < n { return None; } let (x, r) = b.split_at(n); *b = r; Some(x) }
        let n8 = |b: &mut &[u8]| Some(u64::from_le_bytes(take(b, 8)?.try_into().ok()?));
        let h = |b: &mut &[u8]| Some(Root::from(<[u8; 32]>::try_from(take(b, 32)?).ok()?));
        let v4 = |b: &mut &[u8]| <[u8; 4]>::try_from(take(b, 4)?).ok();
        let fork = take(b, 1)?[0];
        let (slot, fork_epoch, fin_epoch, exit, cons, h_slot, h_prop) = (n8(b)?, n8(b)?, n8(b)?, n8(b)?, n8(b)?, n8(b)?, n8(b)?);
        let (previous_version, current_version) = (v4(b)?, v4(b)?);
        let (genesis_validators_root, fin_root, parent_root, state_root, body_root) = (h(b)?, h(b)?, h(b)?, h(b)?, h(b)?);
        let mut leaves = vec![];
        for _ in 0..take(b, 1)?[0] { leaves.push(h(b)?.0); }
        let mut randao_mixes = vec![];
        let n = take(b, 2)?;
        for _ in 0..u16::from_le_bytes([n[0], n[1]]) { randao_mixes.push(Bytes32(take(b, 32)?.to_vec())); }
        let mut vs = vec![];
        while !b.is_empty() {
            let (k, w, s) = (take(b, 48)?.to_vec(), take(b, 32)?.to_vec(), take(b, 1)?[0]);
            vs.push(Validator { public_key: BlsPublicKey(k), withdrawal_credentials: Bytes32(w), slashed: s == 1, effective_balance: n8(b)?, activation_eligibility_epoch: n8(b)?, activation_epoch: n8(b)?, exit_epoch: n8(b)?, withdrawable_epoch: n8(b)? });
        }
        let s = State { leaves, slot, genesis_validators_root, fork: Fork { previous_version, current_version, epoch: fork_epoch }, latest_block_header: BeaconBlockHeader { slot: h_slot, proposer_index: h_prop as usize, parent_root, state_root, body_root },
            validators: vs.into(), randao_mixes, finalized: ethereum_consensus::electra::Checkpoint { epoch: fin_epoch, root: fin_root }, earliest_exit_epoch: exit, earliest_consolidation_epoch: cons };
        Some(match fork { 0 => BeaconState::Deneb(s), 1 => BeaconState::Electra(s), 2 => BeaconState::Fulu(s), _ => return None })
    }
}
