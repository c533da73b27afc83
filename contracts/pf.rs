// Preflight: C27.
//@include base
//@include iter
//@include core
//@include chain
//@include coll
//@include wrap
//@config {"macros": {"bail": "return Err(vf_anyhow())"}, "methods": {"par_iter": "vf_iter", "iter": "vf_iter", "into_iter": "vf_into_iter", "get": "vf_get", "into": "vf_into", "to_string": "vf_to_string", "unwrap_or_default": "vf_unwrap_or_default", "flatten": "vf_flatten", "then_some": "vf_then_some", "as_ref": "vf_as_ref", "to_le_bytes": "vf_le_bytes", "peek": "vf_peek", "cloned": "vf_cloned", "deref": "vf_deref"}, "types": {"Self::Error": "HostReaderError", "Arc<BeaconState>": "StateRef", "implIntoIterator<Item=&'aValidator>": "VIter<&'a Validator>", "anyhow::Result<()>": "Result<(), AnyError>", "List<Validator,VALIDATOR_REGISTRY_LIMIT>": "Vec<Validator>", "Validators": "Vec<Validator>", "ssz_multiproofs::Result<Multiproof<'static>>": "Result<Multiproof<'static>, AnyError>", "anyhow::Result<GuestInput<E>>": "Result<GuestInput<'static, E>, AnyError>", "anyhow::Result<Vec<_>>": "Result<Vec<_>, AnyError>"}, "paths": {"z_core::Attestation": "Attestation", "z_core::ConsensusState": "ConsensusState", "Clone::clone": "VClone", "futures::executor::block_on": "vf_block_on", "Digest::update": "Sha256::update", "sha2::Sha256::new": "Sha256::new", "<[u8;32]>::from": "vf_sha_array", "std::cmp::max": "vf_max", "IntoIterator": "VIntoIter", "AsRef": "VAsRef", "Epoch::from": "vf_epoch_from", "futures::future::try_join_all": "vf_try_join_all", "B256::from_slice": "vf_b256_from_slice", "ethereum_consensus::types::BeaconBlockBodyRef::Electra": "BeaconBlockBodyRef::Electra", "Default::default": "VDefault::vdefault", "BeaconState::Electra": "Versioned::Electra", "BeaconState::Fulu": "Versioned::Fulu"}, "flat_map": "loop"}
//@props C27: PreflightInputReader::new; PreflightInputReader::patch_builder; build_state_multiproof; PreflightInputReader::to_input; InputReader for PreflightInputReader::chain_spec; InputReader for PreflightInputReader::genesis_validators_root; InputReader for PreflightInputReader::fork; InputReader for PreflightInputReader::active_validators; InputReader for PreflightInputReader::randao_mix; InputReader for PreflightInputReader::attestations; InputReader for PreflightInputReader::consensus_state; InputReader for PreflightInputReader::slot_for_block
//@use cs
//@use vi
//@use rd
//@use ho
//@use hr
//@include pf
fn main() {}
