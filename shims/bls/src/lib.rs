//! Stand-in for lighthouse's `bls`: an ideal (symbolic) signature scheme.
//!
//! A public key is 48 arbitrary bytes; its uncompressed form appends a checksum. An aggregate
//! signature is the multiset of (message, key) pairs that were signed, so that verification accepts
//! exactly the signatures an honest signer could have produced: unforgeability is built in.
use alloy_primitives::B256;
use sha2::{Digest, Sha256};

pub type Hash256 = B256;
pub const PUBLIC_KEY_BYTES_LEN: usize = 48;
pub const PUBLIC_KEY_UNCOMPRESSED_BYTES_LEN: usize = 96;

#[derive(Debug, PartialEq, Eq, Clone)]
pub enum Error { InvalidByteLength { got: usize, expected: usize }, InvalidPoint }

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct PublicKey { bytes: [u8; PUBLIC_KEY_BYTES_LEN] }

impl core::fmt::Debug for PublicKey {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "pk:{:02x}{:02x}..{:02x}", self.bytes[0], self.bytes[1], self.bytes[47])
    }
}
fn checksum(bytes: &[u8; 48]) -> [u8; 48] {
    let h: [u8; 32] = Sha256::digest(bytes).into();
    let mut out = [0u8; 48];
    out[..32].copy_from_slice(&h);
    out
}
impl PublicKey {
    pub fn serialize(&self) -> [u8; PUBLIC_KEY_BYTES_LEN] { self.bytes }
    pub fn deserialize(bytes: &[u8]) -> Result<Self, Error> {
        let bytes: [u8; 48] = bytes.try_into().map_err(|_| Error::InvalidByteLength { got: bytes.len(), expected: 48 })?;
        Ok(Self { bytes })
    }
    pub fn serialize_uncompressed(&self) -> [u8; PUBLIC_KEY_UNCOMPRESSED_BYTES_LEN] {
        let mut out = [0u8; 96];
        out[..48].copy_from_slice(&self.bytes);
        out[48..].copy_from_slice(&checksum(&self.bytes));
        out
    }
    pub fn deserialize_uncompressed(raw: &[u8]) -> Result<Self, Error> {
        if raw.len() != 96 { return Err(Error::InvalidByteLength { got: raw.len(), expected: 96 }); }
        let bytes: [u8; 48] = raw[..48].try_into().unwrap();
        if checksum(&bytes) != raw[48..] { return Err(Error::InvalidPoint); }
        Ok(Self { bytes })
    }
}

pub struct SecretKey([u8; 48]);
impl SecretKey {
    pub fn from_bytes(b: [u8; 48]) -> Self { Self(b) }
    pub fn random() -> Self {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(1);
        let mut b = [0u8; 48];
        b[..8].copy_from_slice(&N.fetch_add(1, Ordering::Relaxed).to_le_bytes());
        Self(b)
    }
    pub fn public_key(&self) -> PublicKey { PublicKey { bytes: self.0 } }
}

/// The sorted multiset of (message, key) pairs that were signed; empty is the point at infinity.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct AggregateSignature { pub shares: Vec<(B256, PublicKey)> }
impl AggregateSignature {
    pub fn infinity() -> Self { Self::default() }
    pub fn is_infinity(&self) -> bool { self.shares.is_empty() }
    pub fn sign(&mut self, msg: B256, pk: &PublicKey) {
        self.shares.push((msg, pk.clone()));
        self.shares.sort();
    }
    pub fn fast_aggregate_verify(&self, msg: Hash256, pubkeys: &[&PublicKey]) -> bool {
        if pubkeys.is_empty() { return false; }
        let mut want: Vec<(B256, PublicKey)> = pubkeys.iter().map(|p| (msg, (*p).clone())).collect();
        want.sort();
        want == self.shares
    }
    pub fn eth_fast_aggregate_verify(&self, msg: Hash256, pubkeys: &[&PublicKey]) -> bool {
        if pubkeys.is_empty() && self.is_infinity() { return true; }
        self.fast_aggregate_verify(msg, pubkeys)
    }
}
