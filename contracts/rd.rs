// The seed, the total balance and validator records: C14, C15.
//@include base
//@include iter
//@include core
//@include chain
//@include coll
//@config {"methods": {"iter": "vf_iter", "into_iter": "vf_into_iter", "get": "vf_get", "into": "vf_into", "to_string": "vf_to_string", "then_some": "vf_then_some", "peek": "vf_peek", "as_ref": "vf_as_ref", "to_le_bytes": "vf_le_bytes"}, "paths": {"Digest::update": "Sha256::update", "sha2::Sha256::new": "Sha256::new", "<[u8;32]>::from": "vf_sha_array", "std::cmp::max": "vf_max", "IntoIterator": "VIntoIter", "AsRef": "VAsRef"}}
//@props C14: trait InputReader::get_randao_mix; trait InputReader::get_seed; uint64_to_bytes
//@props C15: get_total_balance; AsRef<ValidatorInfo> for ValidatorInfo::as_ref
//@props C08: get_total_balance
//@use cs
//@include vi
//@include rd
fn main() {}
