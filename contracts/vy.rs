// Verification: C08, C09, C10, C11.
//@include base
//@include iter
//@include core
//@include chain
//@include coll
//@include ck
//@config {"methods": {"iter": "vf_iter", "into_iter": "vf_into_iter", "get": "vf_get", "into": "vf_into", "to_string": "vf_to_string", "then_some": "vf_then_some", "peek": "vf_peek", "as_ref": "vf_as_ref", "to_le_bytes": "vf_le_bytes"}, "paths": {"Digest::update": "Sha256::update", "sha2::Sha256::new": "Sha256::new", "<[u8;32]>::from": "vf_sha_array", "std::cmp::max": "vf_max", "IntoIterator": "VIntoIter", "AsRef": "VAsRef"}}
//@props C08: verify; static DEFAULT_CONFIG; static SEPOLIA_CONFIG; process_attestation
//@props C09: verify; validate_link; compute_committees; process_attestation
//@props C10: validate_link; Config::is_supported_version; verify
//@props C23: static DEFAULT_CONFIG; static SEPOLIA_CONFIG
//@props C11: process_attestation; is_valid_indexed_attestation; compute_committees; verify
//@props C14: compute_committees
//@use cs
//@use cc
//@use at
//@use vi
//@use rd
//@include vy
//@include vyl
fn main() {}
