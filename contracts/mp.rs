// Multiproofs: C01 (root), C02 (generalized indices), C03 (values).
//@include base
//@include iter
//@include bits
//@config {"methods": {"try_into": "vf_try_into", "min": "vf_minm"}, "paths": {"Vec::with_capacity": "vf_capacity"}, "types": {"BitVec<u32,Lsb0>": "Vec<bool>"}}
//@props C01: calculate_compact_multi_merkle_root; TreeNode::has_value; TreeNode::is_internal; Multiproof::calculate_root; Multiproof::verify
//@props C02: GIndexIterator::new; Iterator for GIndexIterator::next; Multiproof::nodes
//@props C03: Multiproof::values; Multiproof::get; ValueIterator::new; ValueIterator::next_assert_gindex; Iterator for ValueIterator::next
//@include mp
fn main() {}
