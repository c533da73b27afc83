// Registry look-ahead and state patches: C18, C19, C20.
//@include base
//@include iter
//@include core
//@include chain
//@include coll
//@include wrap
//@config {"methods": {"iter": "vf_iter", "into_iter": "vf_into_iter", "get": "vf_get", "into": "vf_into", "to_string": "vf_to_string", "then_some": "vf_then_some", "peek": "vf_peek", "as_ref": "vf_as_ref", "to_le_bytes": "vf_le_bytes", "try_into": "vf_try_array"}, "types": {"BitVec<u32,Lsb0>": "Vec<bool>"}, "paths": {"Digest::update": "Sha256::update", "sha2::Sha256::new": "Sha256::new", "<[u8;32]>::from": "vf_sha_array", "std::cmp::max": "vf_max", "std::cmp::min": "vf_min", "u64::from_le_bytes": "vf_u64_le", "IntoIterator": "VIntoIter", "AsRef": "VAsRef"}}
//@props C18: process_registry_updates; ValidatorInfo::is_eligible_for_activation_queue; ValidatorInfo::is_eligible_for_activation
//@props C20: StatePatch::is_active_validator; StatePatch::new; static EMPTY_STATE_PATCH; ValidatorInfo::is_active_at
//@props C19: GuestInput::validate_state_patches; get_balance_churn_limit
pub mod ssz_multiproofs { use super::*;
//@use mp
}
//@use cs
//@use vi
//@use rd
//@use gx
//@include gp
fn main() {}
