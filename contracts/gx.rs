// Guest proof extraction: C16, C17.
//@include base
//@include iter
//@include core
//@include chain
//@include coll
//@config {"methods": {"iter": "vf_iter", "into_iter": "vf_into_iter", "get": "vf_get", "into": "vf_into", "to_string": "vf_to_string", "then_some": "vf_then_some", "peek": "vf_peek", "as_ref": "vf_as_ref", "to_le_bytes": "vf_le_bytes", "try_into": "vf_try_array"}, "types": {"BitVec<u32,Lsb0>": "Vec<bool>"}, "paths": {"Digest::update": "Sha256::update", "sha2::Sha256::new": "Sha256::new", "<[u8;32]>::from": "vf_sha_array", "std::cmp::max": "vf_max", "std::cmp::min": "vf_min", "u64::from_le_bytes": "vf_u64_le", "IntoIterator": "VIntoIter", "AsRef": "VAsRef"}}
//@props C16: extract_beacon_block_multiproof; extract_beacon_state_multiproof; u64_from_chunk; U64ChunkPos for Leftmost::as_range; slot_gindex; finalized_checkpoint_epoch_gindex; genesis_validators_root_gindex; fork_previous_version_gindex; fork_current_version_gindex; fork_epoch_gindex; validators_gindex; earliest_exit_epoch_gindex; earliest_consolidation_epoch_gindex; state_root_gindex
//@props C22: block_slot_gindex; u64_from_chunk; U64ChunkPos for Leftmost::as_range
//@props C17: extract_validators_multiproof; has_compressed_chunks; bool_from_chunk; U64ChunkPos for Leftmost::as_range; u64_from_chunk; public_key_0_gindex; public_key_1_gindex; effective_balance_gindex; slashed_gindex; activation_eligibility_epoch_gindex; activation_epoch_gindex; exit_epoch_gindex
pub mod ssz_multiproofs { use super::*;
//@use mp
}
//@use cs
//@use vi
//@use rd
//@include gx
fn main() {}
