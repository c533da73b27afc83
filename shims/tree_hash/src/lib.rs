//! Stand-in for `tree_hash`: only the trait surface the code needs.
pub type Hash256 = alloy_primitives::B256;
pub type PackedEncoding = Vec<u8>;
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum TreeHashType { Basic, Vector, List, Container }
pub trait TreeHash {
    fn tree_hash_type() -> TreeHashType;
    fn tree_hash_packed_encoding(&self) -> PackedEncoding;
    fn tree_hash_packing_factor() -> usize;
    fn tree_hash_root(&self) -> Hash256;
}
