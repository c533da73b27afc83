//! Stand-in for `ssz_rs`: an SSZ container is anything that knows the chunk at each of its
//! generalized indices.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum MerkleizationError { NoNode(usize), InvalidPath }
impl std::fmt::Display for MerkleizationError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
impl std::error::Error for MerkleizationError {}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Node(pub [u8; 32]);
impl Node { pub fn as_slice(&self) -> &[u8] { &self.0 } }
impl std::ops::Deref for Node { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
impl AsRef<[u8]> for Node { fn as_ref(&self) -> &[u8] { &self.0 } }
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum PathElement { Index(usize), Field(String), Length }
impl From<usize> for PathElement { fn from(i: usize) -> Self { PathElement::Index(i) } }
impl From<&str> for PathElement { fn from(s: &str) -> Self { PathElement::Field(s.into()) } }
pub type Path<'a> = &'a [PathElement];
pub type GeneralizedIndex = usize;
pub trait GeneralizedIndexable { fn generalized_index(path: Path) -> Result<GeneralizedIndex, MerkleizationError>; }
pub struct Tree(());
pub trait Prove: GeneralizedIndexable {
    fn chunk(&self, index: GeneralizedIndex) -> Result<Node, MerkleizationError>;
    fn compute_tree(&self) -> Result<Tree, MerkleizationError> { Ok(Tree(())) }
}
pub struct Proof { pub leaf: Node, pub branch: Vec<Node>, pub index: GeneralizedIndex }
pub mod proofs {
    use super::*;
    pub struct Prover { index: GeneralizedIndex, leaf: Option<Node> }
    impl From<GeneralizedIndex> for Prover { fn from(index: GeneralizedIndex) -> Self { Prover { index, leaf: None } } }
    impl Prover {
        pub fn compute_proof_cached_tree<T: Prove + ?Sized>(&mut self, data: &T, _tree: &Tree) -> Result<(), MerkleizationError> {
            self.leaf = Some(data.chunk(self.index)?);
            Ok(())
        }
        pub fn compute_proof<T: Prove + ?Sized>(&mut self, data: &T) -> Result<(), MerkleizationError> { self.leaf = Some(data.chunk(self.index)?); Ok(()) }
        pub fn into_proof(self) -> Proof { Proof { leaf: self.leaf.expect("proof computed"), branch: vec![], index: self.index } }
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum DeserializeError { Invalid }
impl std::fmt::Display for DeserializeError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
impl std::error::Error for DeserializeError {}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum SerializeError { Invalid }
impl std::fmt::Display for SerializeError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
impl std::error::Error for SerializeError {}
pub trait Serialize { fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError>; }
pub trait Deserialize: Sized { fn deserialize(encoding: &[u8]) -> Result<Self, DeserializeError>; }
pub fn serialize<T: Serialize>(value: &T) -> Result<Vec<u8>, SerializeError> { let mut b = vec![]; value.serialize(&mut b)?; Ok(b) }
pub fn deserialize<T: Deserialize>(encoding: &[u8]) -> Result<T, DeserializeError> { T::deserialize(encoding) }
pub trait HashTreeRoot { fn hash_tree_root(&self) -> Result<alloy_primitives::B256, MerkleizationError>; }
pub type Chunk = [u8; 32];
pub fn h2(a: &Chunk, b: &Chunk) -> Chunk { use sha2::{Digest, Sha256}; let mut h = Sha256::new(); h.update(a); h.update(b); h.finalize().into() }
pub fn chunk_u64(x: u64) -> Chunk { let mut c = [0; 32]; c[..8].copy_from_slice(&x.to_le_bytes()); c }
/// root of the subtree at depth `d` whose leaves are `v`, filled up with zero chunks
pub fn merkle(v: &[Chunk], d: u32) -> Chunk {
    if v.is_empty() { return (0..d).fold([0; 32], |z, _| h2(&z, &z)); }
    if d == 0 { return v[0]; }
    let half = if d > 40 { usize::MAX } else { 1usize << (d - 1) };
    let (l, r) = v.split_at(half.min(v.len()));
    h2(&merkle(l, d - 1), &merkle(r, d - 1))
}
/// the steps from the root to a generalized index
pub fn steps(g: usize) -> Result<Vec<bool>, MerkleizationError> {
    if g == 0 { return Err(MerkleizationError::NoNode(0)); }
    let n = usize::BITS - 1 - g.leading_zeros();
    Ok((0..n).rev().map(|i| g >> i & 1 == 1).collect())
}
/// A record of the elements of a list
pub trait Record { const DEPTH: u32; fn field_index(name: &str) -> Option<usize>; fn root(&self) -> Chunk; fn node(&self, steps: &[bool]) -> Option<Chunk>; fn sub_index(path: Path) -> Result<GeneralizedIndex, MerkleizationError>; }
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct List<T, const N: usize>(Vec<T>);
impl<T, const N: usize> From<Vec<T>> for List<T, N> { fn from(v: Vec<T>) -> Self { Self(v) } }
impl<T, const N: usize> std::ops::Deref for List<T, N> { type Target = Vec<T>; fn deref(&self) -> &Vec<T> { &self.0 } }
impl<'a, T, const N: usize> IntoIterator for &'a List<T, N> { type Item = &'a T; type IntoIter = std::slice::Iter<'a, T>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
impl<T: Record, const N: usize> List<T, N> {
    const D: u32 = N.trailing_zeros();
    fn roots(&self) -> Vec<Chunk> { self.0.iter().map(|x| x.root()).collect() }
}
impl<T: Record, const N: usize> HashTreeRoot for List<T, N> { fn hash_tree_root(&self) -> Result<alloy_primitives::B256, MerkleizationError> { self.chunk(1).map(|n| n.0.into()) } }
impl<T: Record, const N: usize> GeneralizedIndexable for List<T, N> {
    fn generalized_index(path: Path) -> Result<GeneralizedIndex, MerkleizationError> {
        match path {
            [] => Ok(1),
            [PathElement::Length] => Ok(3),
            [PathElement::Index(i), rest @ ..] if *i < N => { let s = T::sub_index(rest)?; let d = usize::BITS - 1 - s.leading_zeros(); Ok(((2 * N + i) << d) | (s ^ (1 << d))) }
            _ => Err(MerkleizationError::InvalidPath),
        }
    }
}
impl<T: Record, const N: usize> Prove for List<T, N> {
    fn chunk(&self, g: GeneralizedIndex) -> Result<Node, MerkleizationError> {
        let s = steps(g)?;
        let no = Err(MerkleizationError::NoNode(g));
        match s.split_first() {
            None => Ok(Node(h2(&merkle(&self.roots(), Self::D), &chunk_u64(self.0.len() as u64)))),
            Some((true, [])) => Ok(Node(chunk_u64(self.0.len() as u64))),
            Some((true, _)) => no,
            Some((false, s)) => {
                let d = Self::D as usize;
                let k = s.len().min(d);
                let pos = s[..k].iter().fold(0usize, |a, b| a * 2 + *b as usize);
                let rest = d - k;
                if k == d && s.len() > d { return match self.0.get(pos).and_then(|x| x.node(&s[d..])) { Some(c) => Ok(Node(c)), None => no }; }
                let lo = (pos << rest).min(self.0.len());
                let hi = ((pos + 1) << rest).min(self.0.len());
                Ok(Node(merkle(&self.roots()[lo..hi], rest as u32)))
            }
        }
    }
}
pub mod prelude { pub use super::{List, HashTreeRoot, Serialize, GeneralizedIndex, GeneralizedIndexable, Path, PathElement, Prove, MerkleizationError, Proof, Tree, Node}; pub use super::proofs::Prover; }
