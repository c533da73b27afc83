// The guest reader: C16, C18, C20, C22.
//@include base
//@include iter
//@include core
//@include chain
//@include coll
//@include wrap
//@config {"methods": {"iter": "vf_iter", "into_iter": "vf_into_iter", "get": "vf_get", "into": "vf_into", "to_string": "vf_to_string", "then_some": "vf_then_some", "peek": "vf_peek", "as_ref": "vf_as_ref", "to_le_bytes": "vf_le_bytes", "try_into": "vf_try_array"}, "types": {"BitVec<u32,Lsb0>": "Vec<bool>"}, "paths": {"Digest::update": "Sha256::update", "sha2::Sha256::new": "Sha256::new", "<[u8;32]>::from": "vf_sha_array", "std::cmp::max": "vf_max", "std::cmp::min": "vf_min", "u64::from_le_bytes": "vf_u64_le", "IntoIterator": "VIntoIter", "AsRef": "VAsRef", "mem::take": "vf_take", "Epoch::from": "vf_epoch_from"}}
//@props C16: GuestInput::into_reader; WithContext<T> for Result::context
//@props C17: GuestInput::into_reader
//@props C09: InputReader for GuestInputReader::consensus_state; InputReader for GuestInputReader::chain_spec
//@props C11: InputReader for GuestInputReader::attestations
//@props C18: GuestInput::into_reader
//@props C19: GuestInput::into_reader
//@props C20: InputReader for GuestInputReader::active_validators; GuestInput::into_reader
//@props C22: GuestInput::into_reader; InputReader for GuestInputReader::slot_for_block
//@props C08: InputReader for GuestInputReader::active_validators; InputReader for GuestInputReader::attestations
//@props C14: InputReader for GuestInputReader::randao_mix
//@props C16: InputReader for GuestInputReader::genesis_validators_root; InputReader for GuestInputReader::fork
pub mod ssz_multiproofs { use super::*;
//@use mp
}
//@use cs
//@use vi
//@use rd
//@use gx
//@use gp
//@include gr
//@include grl
fn main() {}
