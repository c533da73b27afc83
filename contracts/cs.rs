// Finality state machine: C06 (apply a link), C07 (reconstruct it), C21 (public encodings).
//@include base
//@include core
//@config {"methods": {"into": "vf_into", "try_into": "vf_try_into", "to_string": "vf_to_string"}, "paths": {"ConsensusState::default": "cs_default", "<abi::StateasSolType>::abi_decode": "abi::State::sol_decode", "abi::State::from": "<abi::State as VFrom<_>>::vfrom"}}
verus! {
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub struct BtCheckpoint { pub epoch: Epoch, pub root: Root }
pub mod beacon_types { pub use super::BtCheckpoint as Checkpoint; }
} // verus!
//@props C06: ConsensusState::state_transition; ConsensusState::is_valid; ConsensusState::new; ConsensusState::try_new; ConsensusState::finalized_checkpoint; ConsensusState::current_justified_checkpoint; Checkpoint::epoch; Checkpoint::new; From<ArithError> for ConsensusError::from
//@props C07: ConsensusState::transition_link; ConsensusState::less_or_equal; Checkpoint::less_or_equal; Checkpoint::epoch; ConsensusState::is_valid
//@props C21: Journal::new; Journal::encode; ConsensusState::abi_encode; ConsensusState::abi_decode; From<&crate::Checkpoint> for Checkpoint::from; From<Checkpoint> for Checkpoint::from; From<&crate::ConsensusState> for State::from; TryFrom<State> for ConsensusState::try_from; ConsensusState::try_new; ConsensusState::is_valid
//@props C23: Journal::new; Journal::encode; From<&crate::Checkpoint> for Checkpoint::from; From<&crate::ConsensusState> for State::from
//@props C09: ConsensusState::state_transition; ConsensusState::is_valid; ConsensusState::finalized_checkpoint; From<beacon_types::Checkpoint> for Checkpoint::from; Checkpoint::epoch; Checkpoint::root
//@include cs
//@include abi
fn main() {}
