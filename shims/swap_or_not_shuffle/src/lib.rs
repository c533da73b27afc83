//! Stand-in for lighthouse's `swap_or_not_shuffle`: the list shuffle of the consensus specification.
use sha2::{Digest, Sha256};
const MAX_LIST: usize = 1 << 40;

fn hash(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Sha256::new();
    for p in parts { h.update(p); }
    h.finalize().into()
}
/// `compute_shuffled_index` of the consensus specification.
pub fn compute_shuffled_index(index: usize, list_size: usize, seed: &[u8], rounds: u8) -> Option<usize> {
    if list_size == 0 || index >= list_size || list_size > MAX_LIST { return None; }
    let mut index = index;
    for r in 0..rounds {
        let pivot = (u64::from_le_bytes(hash(&[seed, &[r]])[..8].try_into().unwrap()) % list_size as u64) as usize;
        let flip = (pivot + list_size - index) % list_size;
        let pos = index.max(flip);
        let src = hash(&[seed, &[r], &((pos / 256) as u32).to_le_bytes()]);
        if (src[(pos % 256) / 8] >> (pos % 8)) & 1 == 1 { index = flip; }
    }
    Some(index)
}
/// `forwards == false`: out[i] = input[compute_shuffled_index(i)], as used for committees.
pub fn shuffle_list(input: Vec<usize>, rounds: u8, seed: &[u8], forwards: bool) -> Option<Vec<usize>> {
    let n = input.len();
    if n == 0 || n > MAX_LIST || rounds == 0 { return None; }
    let mut out = vec![0usize; n];
    for i in 0..n {
        let j = compute_shuffled_index(i, n, seed, rounds)?;
        if forwards { out[j] = input[i]; } else { out[i] = input[j]; }
    }
    Some(out)
}
