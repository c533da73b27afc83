//! Stand-in for `ethereum_ssz`: only the trait surface the code needs.
#[derive(Debug, PartialEq, Eq, Clone)]
pub enum DecodeError { Invalid(&'static str) }
pub trait Encode { fn as_ssz_bytes(&self) -> Vec<u8>; }
pub trait Decode: Sized { fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError>; }
