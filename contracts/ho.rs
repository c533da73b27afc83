// The host: collecting links and attestations from a beacon node, state patches: C24, C25, C26.
//@include base
//@include iter
//@include core
//@include chain
//@include coll
//@include wrap
//@config {"methods": {"par_iter": "vf_iter", "iter": "vf_iter", "into_iter": "vf_into_iter", "get": "vf_get", "into": "vf_into", "to_string": "vf_to_string", "unwrap_or_default": "vf_unwrap_or_default", "flatten": "vf_flatten", "then_some": "vf_then_some", "as_ref": "vf_as_ref", "to_le_bytes": "vf_le_bytes"}, "flat_map": "loop", "types": {"Self::Error": "HostReaderError", "Arc<BeaconState>": "StateRef", "implIntoIterator<Item=&'aValidator>": "VIter<&'a Validator>", "anyhow::Result<()>": "Result<(), AnyError>"}, "paths": {"z_core::Attestation": "Attestation", "z_core::ConsensusState": "ConsensusState", "Clone::clone": "VClone", "futures::executor::block_on": "vf_block_on", "Digest::update": "Sha256::update", "sha2::Sha256::new": "Sha256::new", "<[u8;32]>::from": "vf_sha_array", "std::cmp::max": "vf_max", "IntoIterator": "VIntoIter", "AsRef": "VAsRef", "Epoch::from": "vf_epoch_from", "futures::future::try_join_all": "vf_try_join_all", "B256::from_slice": "vf_b256_from_slice", "ethereum_consensus::types::BeaconBlockBodyRef::Electra": "BeaconBlockBodyRef::Electra", "Default::default": "VDefault::vdefault"}}
//@props C24: find_finalization_epoch; get_justifications_until_new_finality; HostInputReader::new
//@props C25: collect_attestations_for_links; HostInputReader::new
//@props C26: StatePatchBuilder::new; StatePatchBuilder::randao_mix; StatePatchBuilder::validator_diff; StatePatchBuilder::build
//@props C27: StatePatchBuilder::new; StatePatchBuilder::randao_mix; StatePatchBuilder::validator_diff; StatePatchBuilder::build; trait StateProvider::state_at_epoch; trait StateProvider::state_at_epoch_boundary; trait StateProvider::state_at_checkpoint; StateProvider for HostInputReader::state_at_slot
//@props C28: HostInputReader::new; HostInputReader::state; InputReader for HostInputReader::chain_spec; InputReader for HostInputReader::genesis_validators_root; InputReader for HostInputReader::fork; InputReader for HostInputReader::active_validators; InputReader for HostInputReader::randao_mix; InputReader for HostInputReader::attestations; InputReader for HostInputReader::consensus_state; InputReader for HostInputReader::slot_for_block; is_active_validator; TryAsBeaconType<ValidatorInfo> for Validator::try_as_beacon_type; trait StateProvider::genesis_validators_root; trait StateProvider::state_at_epoch; trait StateProvider::state_at_epoch_boundary; trait StateProvider::state_at_checkpoint; CacheStateProvider::new; StateProvider for CacheStateProvider::state_at_slot; StateProvider for CacheStateProvider::genesis_validators_root; StateProvider for HostInputReader::state_at_slot
//@use cs
//@use vi
//@use rd
//@include ho
//@include hr
fn main() {}
