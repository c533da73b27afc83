// One-bit operations on indices, as arithmetic (proved by bit-blasting), so that shifts and masks say the same as * and /.
verus! {
pub mod small_bits {
use vstd::prelude::*;
pub broadcast proof fn shl1(x: u64) ensures (#[trigger] (x << 1)) == (if x < 0x8000_0000_0000_0000 { 2 * x } else { 2 * x - 0x1_0000_0000_0000_0000 }) {
    assert(x < 0x8000_0000_0000_0000 ==> x << 1 == 2 * x) by (bit_vector);
    assert(x >= 0x8000_0000_0000_0000 ==> x << 1 == sub(x, 0x8000_0000_0000_0000) * 2) by (bit_vector);
}
pub broadcast proof fn shl1_even(x: u64) ensures (#[trigger] (x << 1)) % 2 == 0 {
    assert((x << 1) % 2 == 0) by (bit_vector);
}
pub broadcast proof fn or1(x: u64) ensures (#[trigger] (x | 1)) == (if x % 2 == 0 { x + 1 } else { x as int }) {
    assert(x | 1 == (if x % 2 == 0 { add(x, 1) } else { x })) by (bit_vector);
}
pub broadcast proof fn and1(x: u64) ensures (#[trigger] (x & 1)) == x % 2 { assert(x & 1 == x % 2) by (bit_vector); }
pub broadcast proof fn xor1(x: u64) ensures (#[trigger] (x ^ 1)) == (if x % 2 == 0 { x + 1 } else { x - 1 }) {
    assert(x ^ 1 == (if x % 2 == 0 { add(x, 1) } else { sub(x, 1) })) by (bit_vector);
}
pub broadcast proof fn shr1(x: u64) ensures (#[trigger] (x >> 1)) == x / 2 { assert(x >> 1 == x / 2) by (bit_vector); }
pub broadcast group small { shl1, shl1_even, or1, and1, xor1, shr1 }
}
broadcast use small_bits::small;
} // verus!
