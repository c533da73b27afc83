//! Shared pieces of the executable oracles: randomness, hashing, trees, catching rejections.
use sha2::{Digest, Sha256};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Chunk = [u8; 32];

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, prop: &str, case: u64) -> Self {
        let mut h = Sha256::new();
        h.update(seed.to_le_bytes());
        h.update(prop.as_bytes());
        h.update(case.to_le_bytes());
        let d: Chunk = h.finalize().into();
        Rng(u64::from_le_bytes(d[..8].try_into().unwrap()) | 1)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { ((self.u64() as u128 * n as u128) >> 64) as u64 } }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn bool(&mut self) -> bool { self.u64() & 1 == 1 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
    pub fn chunk(&mut self) -> Chunk { let mut c = [0; 32]; for b in c.chunks_mut(8) { b.copy_from_slice(&self.u64().to_le_bytes()); } c }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.below(i as u64 + 1) as usize; v.swap(i, j); } }
    /// a 64-bit number with interesting corners
    pub fn corner(&mut self) -> u64 {
        match self.below(6) {
            0 => self.below(4),
            1 => u64::MAX - self.below(4),
            2 => 1u64.checked_shl(self.below(64) as u32).unwrap().wrapping_add(self.below(3)).wrapping_sub(1),
            3 => self.u64() >> self.below(64),
            _ => self.below(64),
        }
    }
}

pub fn sha(parts: &[&[u8]]) -> Chunk { let mut h = Sha256::new(); for p in parts { h.update(p); } h.finalize().into() }
pub fn h2(a: &Chunk, b: &Chunk) -> Chunk { sha(&[a, b]) }
pub fn chunk_u64(x: u64) -> Chunk { let mut c = [0; 32]; c[..8].copy_from_slice(&x.to_le_bytes()); c }
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
pub fn bits(v: &[bool]) -> String { v.iter().map(|b| if *b { '1' } else { '0' }).collect() }

/// Run code under test; a panic is a rejection.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
    })
}

/// Outcome of a case: Ok(tag) where the tag says what was exercised ("" is trivial), or Err(violation).
pub type Case = Result<String, String>;

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub tags: std::collections::BTreeMap<String, u64>,
}

#[macro_export]
macro_rules! check { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } }; }
