// C04: the builder.
//@include base
//@include iter
//@include col
//@config {"methods": {"try_into": "vf_try_into", "extend": "vf_extend", "par_iter": "vf_par_iter", "max": "vf_maxm", "iter": "vf_iter", "into_iter": "vf_into_iter"}, "types": {"BitVec<u32,Lsb0>": "Vec<bool>", "SmallVec<[GeneralizedIndex;64]>": "Vec<usize>"}, "paths": {"SmallVec::<[GeneralizedIndex;64]>::new": "Vec::<usize>::new", "std::iter::repeat_n": "vf_repeat_n", "Cow::Owned": "vf_owned", "Prover::from": "Prover::vf_from", "IntoIterator": "VIntoIter"}, "cfg_off": ["#[cfg(feature=\"progress-bar\")]"]}
//@props C04: sibling; parent; get_path_indices; get_branch_indices; cmp_binary_lexicographically; compute_proof_descriptor; compute_proof_indices_and_value_mask; calculate_max_stack_depth; MultiproofBuilder::new; Default for MultiproofBuilder::default; MultiproofBuilder::with_path; MultiproofBuilder::with_gindex; MultiproofBuilder::with_gindices; MultiproofBuilder::build
//@use mp
//@include bul
//@include bitsu
//@include bu
fn main() {}
