// The guest program: C23.
//@include base
//@include iter
//@include core
//@include chain
//@include coll
//@include wrap
//@include ck
//@config {"methods": {"iter": "vf_iter", "into_iter": "vf_into_iter", "get": "vf_get", "into": "vf_into", "to_string": "vf_to_string", "then_some": "vf_then_some", "peek": "vf_peek", "as_ref": "vf_as_ref", "to_le_bytes": "vf_le_bytes", "try_into": "vf_try_array"}, "types": {"BitVec<u32,Lsb0>": "Vec<bool>"}, "paths": {"Digest::update": "Sha256::update", "sha2::Sha256::new": "Sha256::new", "<[u8;32]>::from": "vf_sha_array", "std::cmp::max": "vf_max", "std::cmp::min": "vf_min", "u64::from_le_bytes": "vf_u64_le", "IntoIterator": "VIntoIter", "AsRef": "VAsRef", "drop": "vf_drop", "env::commit_slice": "env::commit_slice", "mem::take": "vf_take", "Epoch::from": "vf_epoch_from"}}
//@props C23: entry; main
pub mod ssz_multiproofs { use super::*;
//@use mp
}
//@use cs
//@use cc
//@use at
//@use vi
//@use rd
//@use vy
//@use gx
//@use gp
//@use gr
//@use abi
//@include en
fn main() {}
