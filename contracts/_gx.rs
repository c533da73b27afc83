// Reading proofs in the guest (core/src/input_reader/guest_input_reader.rs, guest_gindices.rs, bls.rs).
verus! {
pub use ssz_multiproofs::{Multiproof, ValueIterator, PIter, Item, value_seq};
// ---- models ----
pub trait VTryArr<const N: usize> { spec fn arr_src(&self) -> Seq<u8>; fn vf_try_array(self) -> (r: core::result::Result<[u8; N], ()>) ensures r is Ok <==> self.arr_src().len() == N, r is Ok ==> r->Ok_0@ == self.arr_src(); }
impl<'a, const N: usize> VTryArr<N> for &'a [u8] { open spec fn arr_src(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vf_try_array(self) -> core::result::Result<[u8; N], ()> { unimplemented!() } }
#[verifier::external_body]
pub fn vf_range_of<'a, S: VfSlice + ?Sized>(s: &'a S, r: Range<usize>, Ghost(reject): Ghost<bool>) -> (x: &'a [S::T])
    requires reject || r.start <= r.end <= s.vf_seq().len(),
    ensures r.start <= r.end <= s.vf_seq().len(), x@ == s.vf_seq().subrange(r.start as int, r.end as int),
{ unimplemented!() }
#[verifier::external_body]
pub fn vf_bytes_eq<A: VfSlice<T = u8> + ?Sized, B: VfSlice<T = u8> + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.vf_seq() =~= b.vf_seq()) { unimplemented!() }
pub open spec fn le_val(s: Seq<u8>) -> u64 {
    (s[0] + 0x100 * s[1] + 0x10000 * s[2] + 0x1000000 * s[3] + 0x100000000 * s[4] + 0x10000000000 * s[5] + 0x1000000000000 * s[6] + 0x100000000000000 * s[7]) as u64
}
#[verifier::external_body]
pub fn vf_u64_le(b: [u8; 8]) -> (r: u64) ensures r == le_val(b@) { unimplemented!() }
pub open spec fn sall<A>(a: Seq<A>, p: spec_fn(A) -> bool) -> bool { forall|i: int| 0 <= i < a.len() ==> p(#[trigger] a[i]) }
impl<T> VIter<T> {
    #[verifier::external_body]
    pub fn all<F: Fn(T) -> bool>(&mut self, f: F, Ghost(p): Ghost<spec_fn(T) -> bool>) -> (r: bool)
        requires all_req1(f, old(self)@), impl1(f, p, old(self)@),
        ensures r == sall(old(self)@, p),
    { unimplemented!() }
}
impl<'b> VFrom<&'b [u8; 32]> for B256 { open spec fn from_spec(t: &'b [u8; 32]) -> Self { b256_of(t@) }
    #[verifier::external_body]
    fn vfrom(t: &'b [u8; 32]) -> (r: Self) { unimplemented!() } }
impl<'a> ValueIterator<'a, PIter<(u64, &'a [u8; 32])>, 32> {
    #[verifier::external_body]
    pub fn peekable(self) -> (r: PIter<(u64, &'a [u8; 32])>) ensures r@ == self.inner@, r.poison() == self.inner.poison() { unimplemented!() }
}
impl<T> PIter<T> {
    #[verifier::external_body]
    pub fn vf_peek(&mut self) -> (r: Option<&T>)
        ensures
            final(self)@ == old(self)@, final(self).poison() == old(self).poison(),
            old(self)@.len() == 0 ==> r is None && !old(self).poison(),
            old(self)@.len() > 0 ==> r is Some && *r->0 == old(self)@[0],
    { unimplemented!() }
}
// the 48-byte compressed form of a key
pub uninterp spec fn compressed(k: PublicKey) -> Seq<u8>;
impl PublicKey {
    #[verifier::external_body]
    pub fn serialize(&self) -> (r: [u8; 48]) ensures r@ == compressed(*self) { unimplemented!() }
}
// ---- generalized indices ----
/// field k of record i of a list of up to 2^40 eight-field records, counted from the list root
pub open spec fn vg(i: int, k: int) -> int { (0x200_0000_0000 + i) * 8 + k }
/// half j of the two-chunk first field of record i
pub open spec fn vk(i: int, j: int) -> int { (0x200_0000_0000 + i) * 16 + j }
//@fn core/src/guest_gindices.rs | slot_gindex
//@ensures
        vr == 66,
//@end
//@fn core/src/guest_gindices.rs | finalized_checkpoint_epoch_gindex
//@ensures
        vr == 168,
//@end
//@fn core/src/guest_gindices.rs | genesis_validators_root_gindex
//@ensures
        vr == 65,
//@end
//@fn core/src/guest_gindices.rs | fork_previous_version_gindex
//@ensures
        vr == 268,
//@end
//@fn core/src/guest_gindices.rs | fork_current_version_gindex
//@ensures
        vr == 269,
//@end
//@fn core/src/guest_gindices.rs | fork_epoch_gindex
//@ensures
        vr == 270,
//@end
//@fn core/src/guest_gindices.rs | validators_gindex
//@ensures
        vr == 75,
//@end
//@fn core/src/guest_gindices.rs | earliest_exit_epoch_gindex
//@ensures
        vr == 95,
//@end
//@fn core/src/guest_gindices.rs | earliest_consolidation_epoch_gindex
//@ensures
        vr == 97,
//@end
//@fn core/src/guest_gindices.rs | state_root_gindex
//@ensures
        vr == 11,
//@end
//@fn core/src/guest_gindices.rs | block_slot_gindex
//@ensures
        vr == 8,
//@end
//@fn core/src/guest_gindices.rs | public_key_0_gindex
//@requires
        i < 0x400_0000_0000_0000,
//@ensures
        vr == vk(i as int, 0),
//@end
//@fn core/src/guest_gindices.rs | public_key_1_gindex
//@requires
        i < 0x400_0000_0000_0000,
//@ensures
        vr == vk(i as int, 1),
//@end
//@fn core/src/guest_gindices.rs | effective_balance_gindex
//@requires
        i < 0x400_0000_0000_0000,
//@ensures
        vr == vg(i as int, 2),
//@end
//@fn core/src/guest_gindices.rs | slashed_gindex
//@requires
        i < 0x400_0000_0000_0000,
//@ensures
        vr == vg(i as int, 3),
//@end
//@fn core/src/guest_gindices.rs | activation_eligibility_epoch_gindex
//@requires
        i < 0x400_0000_0000_0000,
//@ensures
        vr == vg(i as int, 4),
//@end
//@fn core/src/guest_gindices.rs | activation_epoch_gindex
//@requires
        i < 0x400_0000_0000_0000,
//@ensures
        vr == vg(i as int, 5),
//@end
//@fn core/src/guest_gindices.rs | exit_epoch_gindex
//@requires
        i < 0x400_0000_0000_0000,
//@ensures
        vr == vg(i as int, 6),
//@end
// ---- chunks ----
pub trait U64ChunkPos {
    spec fn range_s() -> (int, int);
    fn as_range() -> (r: core::ops::Range<usize>) ensures r.start == Self::range_s().0, r.end == Self::range_s().1;
}
pub struct Leftmost;
impl U64ChunkPos for Leftmost {
    open spec fn range_s() -> (int, int) { (0, 8) }
//@fn core/src/input_reader/guest_input_reader.rs | U64ChunkPos for Leftmost::as_range | {"vis": ""}
//@end
}
//@fn core/src/input_reader/guest_input_reader.rs | u64_from_chunk | {"range_calls": ["P::as_range"]}
//@requires
        P::range_s() == (0int, 8int),
//@ensures
        vr == le_val(node@),
//@end
pub open spec fn bool_chunk(c: Seq<u8>) -> bool { c[0] <= 1 && forall|i: int| 1 <= i < 32 ==> #[trigger] c[i] == 0 }
//@fn core/src/input_reader/guest_input_reader.rs | bool_from_chunk
//@reject !bool_chunk(node@)
//@ensures
        bool_chunk(node@), vr == (node@[0] == 1),
//@begin
        proof { if bool_chunk(node@) { assert forall|i: int| 0 <= i < 31 implies #[trigger] node@.subrange(1, 32)[i] == 0 by { assert(node@[i + 1] == 0); } }
            assert forall|i: int| 1 <= i < 32 implies #[trigger] node@[i] == node@.subrange(1, 32)[i - 1] by {} }
        let ghost tail = srefs(node@.subrange(1, 32));
        proof { if sall(tail, |b: &u8| *b == 0) { assert forall|i: int| 1 <= i < 32 implies #[trigger] node@[i] == 0 by { assert(*tail[i - 1] == 0); } } }
//@closure 0
        |$0: &u8| -> (r: bool) ensures r == (*$0 == 0)
//@closure-ghost 0
|b: &u8| *b == 0
//@end
pub open spec fn key_matches(k: PublicKey, c1: Seq<u8>, c2: Seq<u8>) -> bool {
    compressed(k).subrange(0, 32) == c1 && compressed(k).subrange(32, 48) == c2.subrange(0, 16) && forall|i: int| 16 <= i < 32 ==> #[trigger] c2[i] == 0
}
//@fn core/src/bls.rs | has_compressed_chunks | {"eq": "bytes"}
//@ensures
        vr == key_matches(*pk, chunk1@, chunk2@),
//@begin
        broadcast use vstd::array::group_array_axioms;
        let ghost t = chunk2@.subrange(16, 32);
        proof { assert forall|i: int| 16 <= i < 32 implies #[trigger] chunk2@[i] == t[i - 16] by {} }
//@end
// ---- C16: block and state ----
pub open spec fn block_s(v: Seq<Item<'_>>) -> Option<B256> { if v.len() == 1 && v[0].0 == 11 { Some(b256_of(v[0].1@)) } else { None } }
//@fn core/src/input_reader/guest_input_reader.rs | extract_beacon_block_multiproof
//@reject block_s(value_seq(beacon_block)) is None
//@requires
        beacon_block.inv(),
//@ensures
        match vr { Ok(x) => block_s(value_seq(beacon_block)) == Some(x), Err(_) => block_s(value_seq(beacon_block)) is None },
//@end
//@item core/src/input_reader/guest_input_reader.rs | struct | StateInfo
pub open spec fn epoch_in(c: Seq<u8>) -> Epoch { Epoch { v: le_val(c) } }
pub open spec fn version_in(c: Seq<u8>, v: [u8; 4]) -> bool { v@ == c.subrange(0, 4) }
pub open spec fn state_shape(v: Seq<Item<'_>>) -> bool {
    v.len() == 10 && v[0].0 == 65 && v[1].0 == 66 && v[2].0 == 268 && v[3].0 == 269 && v[4].0 == 270 && v[5].0 == 75 && v[6].0 == 168 && v[7].0 == 95 && v[8].0 == 97
}
pub open spec fn state_is(v: Seq<Item<'_>>, s: StateInfo) -> bool {
    v.len() == 9 && v[0].0 == 65 && v[1].0 == 66 && v[2].0 == 268 && v[3].0 == 269 && v[4].0 == 270 && v[5].0 == 75 && v[6].0 == 168 && v[7].0 == 95 && v[8].0 == 97
    && s.genesis_validators_root == b256_of(v[0].1@)
    && s.slot == (Slot { v: le_val(v[1].1@) })
    && version_in(v[2].1@, s.fork.previous_version) && version_in(v[3].1@, s.fork.current_version) && s.fork.epoch == epoch_in(v[4].1@)
    && s.validators_root == b256_of(v[5].1@)
    && s.finalized_checkpoint_epoch == epoch_in(v[6].1@)
    && s.earliest_exit_epoch == epoch_in(v[7].1@)
    && s.earliest_consolidation_epoch == epoch_in(v[8].1@)
}
//@fn core/src/input_reader/guest_input_reader.rs | extract_beacon_state_multiproof
//@reject forall|s: StateInfo| !state_is(value_seq(beacon_state), s)
//@requires
        beacon_state.inv(),
//@ensures
        match vr { Ok(x) => state_is(value_seq(beacon_state), x), Err(_) => forall|s: StateInfo| !state_is(value_seq(beacon_state), s) },
//@end
// ---- C17: validators ----
pub open spec fn entry_ok(v: Seq<Item<'_>>, i: int, key: PublicKey) -> bool {
    v.len() >= 7 && v[0].0 == vk(i, 0) && v[1].0 == vk(i, 1) && v[2].0 == vg(i, 2) && v[3].0 == vg(i, 3) && v[4].0 == vg(i, 4) && v[5].0 == vg(i, 5) && v[6].0 == vg(i, 6)
    && key_matches(key, v[0].1@, v[1].1@) && bool_chunk(v[3].1@)
}
pub open spec fn entry(v: Seq<Item<'_>>, key: PublicKey) -> ValidatorInfo {
    ValidatorInfo {
        pubkey: key, effective_balance: le_val(v[2].1@), slashed: v[3].1@[0] == 1,
        activation_eligibility_epoch: epoch_in(v[4].1@), activation_epoch: epoch_in(v[5].1@), exit_epoch: epoch_in(v[6].1@),
    }
}
/// the registry read from the values v, from record i on, given the keys not used yet and the entries so far
pub open spec fn reg(v: Seq<Item<'_>>, keys: Seq<PublicKey>, i: int, epoch: Epoch, acc: Seq<(usize, ValidatorInfo)>) -> Option<Seq<(usize, ValidatorInfo)>> decreases v.len() {
    if v.len() == 0 { None }
    else if v[0].0 == 3 { if v.len() == 1 && le_val(v[0].1@) == i { Some(acc) } else { None } }
    else if v[0].0 == vg(i, 6) { if le_val(v[0].1@) <= epoch.v { reg(v.skip(1), keys, i + 1, epoch, acc) } else { None } }
    else if keys.len() > 0 && entry_ok(v, i, keys[0]) { reg(v.skip(7), keys.skip(1), i + 1, epoch, acc.push((i as usize, entry(v, keys[0])))) }
    else { None }
}
pub open spec fn registry(m: &Multiproof<'_>, keys: Seq<PublicKey>, epoch: Epoch) -> Option<Seq<(usize, ValidatorInfo)>> { reg(value_seq(m), keys, 0, epoch, Seq::empty()) }
/// left out, with its own exit epoch proven
pub open spec fn left_out(v: Seq<Item<'_>>, idx: int, epoch: Epoch, m: Seq<(usize, ValidatorInfo)>) -> bool {
    (exists|p: int| 0 <= p < v.len() && (#[trigger] v[p]).0 == vg(idx, 6) && le_val(v[p].1@) <= epoch.v) && forall|j: int| 0 <= j < m.len() ==> (#[trigger] m[j]).0 != idx
}
/// entered, every field from its own chunk, the key one of those supplied
pub open spec fn entered(v: Seq<Item<'_>>, keys: Seq<PublicKey>, idx: int, m: Seq<(usize, ValidatorInfo)>) -> bool {
    exists|j: int, p: int| 0 <= j < m.len() && 0 <= p <= v.len() && (#[trigger] m[j]).0 == idx && entry_ok(#[trigger] v.skip(p), idx, m[j].1.pubkey) && m[j].1 == entry(v.skip(p), m[j].1.pubkey) && keys.contains(m[j].1.pubkey)
}
pub open spec fn covered(v: Seq<Item<'_>>, keys: Seq<PublicKey>, idx: int, epoch: Epoch, m: Seq<(usize, ValidatorInfo)>) -> bool { left_out(v, idx, epoch, m) || entered(v, keys, idx, m) }
pub open spec fn below(s: Seq<(usize, ValidatorInfo)>, i: int) -> bool { forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).0 < i }
pub open spec fn extends(s: Seq<(usize, ValidatorInfo)>, a: Seq<(usize, ValidatorInfo)>, i: int) -> bool {
    a.len() <= s.len() && s.take(a.len() as int) == a && forall|j: int| a.len() <= j < s.len() ==> (#[trigger] s[j]).0 >= i
}
pub proof fn covered_skip(v: Seq<Item<'_>>, k: int, keys: Seq<PublicKey>, c: int, idx: int, epoch: Epoch, m: Seq<(usize, ValidatorInfo)>)
    requires 0 <= k <= v.len(), 0 <= c <= keys.len(), covered(v.skip(k), keys.skip(c), idx, epoch, m),
    ensures covered(v, keys, idx, epoch, m),
{
    if left_out(v.skip(k), idx, epoch, m) {
        let p = choose|p: int| 0 <= p < v.skip(k).len() && (#[trigger] v.skip(k)[p]).0 == vg(idx, 6) && le_val(v.skip(k)[p].1@) <= epoch.v;
        assert(v[p + k] == v.skip(k)[p]);
    } else {
        let (j, p) = choose|j: int, p: int| 0 <= j < m.len() && 0 <= p <= v.skip(k).len() && (#[trigger] m[j]).0 == idx && entry_ok(#[trigger] v.skip(k).skip(p), idx, m[j].1.pubkey) && m[j].1 == entry(v.skip(k).skip(p), m[j].1.pubkey) && keys.skip(c).contains(m[j].1.pubkey);
        assert(v.skip(k).skip(p) =~= v.skip(k + p)) by { assert(v.skip(k).skip(p).len() >= 7); }
        let q = choose|q: int| 0 <= q < keys.skip(c).len() && keys.skip(c)[q] == m[j].1.pubkey;
        assert(keys[q + c] == m[j].1.pubkey);
    }
}
/// C17: complete and field-exact
pub proof fn c17_registry(v: Seq<Item<'_>>, keys: Seq<PublicKey>, i: int, epoch: Epoch, acc: Seq<(usize, ValidatorInfo)>)
    requires reg(v, keys, i, epoch, acc) is Some, sorted_keys(acc), below(acc, i), 0 <= i, i + v.len() <= 0x400_0000_0000_0000,
    ensures ({
        let m = reg(v, keys, i, epoch, acc)->0;
        let n = le_val(v.last().1@);
        &&& v.len() > 0 && v.last().0 == 3 && i <= n && sorted_keys(m) && below(m, n as int) && extends(m, acc, i) && m.len() <= acc.len() + v.len()
        &&& forall|idx: int| i <= idx < n ==> #[trigger] covered(v, keys, idx, epoch, m)
    }),
    decreases v.len(),
{
    reveal(sorted_keys);
    let m = reg(v, keys, i, epoch, acc)->0;
    if v[0].0 == 3 { assert(acc.take(acc.len() as int) =~= acc); }
    else if v[0].0 == vg(i, 6) {
        c17_registry(v.skip(1), keys, i + 1, epoch, acc);
        assert(v.skip(1).last() == v.last());
        let n = le_val(v.last().1@);
        assert forall|idx: int| i <= idx < n implies #[trigger] covered(v, keys, idx, epoch, m) by {
            if idx == i {
                assert forall|j: int| 0 <= j < m.len() implies (#[trigger] m[j]).0 != idx by { if j < acc.len() { assert(m[j] == m.take(acc.len() as int)[j]); } }
                assert(left_out(v, idx, epoch, m));
            } else { assert(keys.skip(0) =~= keys); covered_skip(v, 1, keys, 0, idx, epoch, m); }
        }
    } else {
        let e = (i as usize, entry(v, keys[0]));
        let a2 = acc.push(e);
        c17_registry(v.skip(7), keys.skip(1), i + 1, epoch, a2);
        assert(v.skip(7).last() == v.last());
        let n = le_val(v.last().1@);
        assert(m[acc.len() as int] == m.take(a2.len() as int)[acc.len() as int]);
        assert(m.take(acc.len() as int) =~= a2.take(acc.len() as int)) by { assert forall|j: int| 0 <= j < acc.len() implies m[j] == a2[j] by { assert(m[j] == m.take(a2.len() as int)[j]); } }
        assert(a2.take(acc.len() as int) =~= acc);
        assert forall|j: int| acc.len() <= j < m.len() implies (#[trigger] m[j]).0 >= i by { }
        assert forall|idx: int| i <= idx < n implies #[trigger] covered(v, keys, idx, epoch, m) by {
            if idx == i { assert(v.skip(0) =~= v); assert(keys.contains(keys[0])); assert(m[acc.len() as int].0 == idx && entry_ok(v.skip(0), idx, keys[0])); assert(entered(v, keys, idx, m)); }
            else { covered_skip(v, 7, keys, 1, idx, epoch, m); }
        }
    }
}
pub proof fn value_len(m: &Multiproof<'_>) requires m.inv() ensures value_seq(m).len() <= m.data@.len() / 32, m.data@.len() / 32 <= 0x3ff_ffff_ffff_ffff { ssz_multiproofs::value_seq_len(m); }
//@fn core/src/input_reader/guest_input_reader.rs | extract_validators_multiproof
//@reject registry(validators, public_keys@, current_epoch) is None
//@requires
        validators.inv(),
//@ensures
        match vr { Ok(x) => registry(validators, public_keys@, current_epoch) == Some(x@), Err(_) => registry(validators, public_keys@, current_epoch) is None },
//@begin
        let ghost want = registry(validators, public_keys@, current_epoch);
        proof { value_len(validators); }
//@loop 0
        invariant_except_break
            reg(values@, pubkeys@, validator_index as int, current_epoch, validator_cache@) == want,
            below(validator_cache@, validator_index as int),
            validator_index + values@.len() <= 0x3ff_ffff_ffff_ffff,
            want == registry(validators, public_keys@, current_epoch),
        ensures
            want == registry(validators, public_keys@, current_epoch),
            values@.len() > 0, values@[0].0 == 3,
            reg(values@, pubkeys@, validator_index as int, current_epoch, validator_cache@) == want,
        decreases values@.len()
//@loop-begin 0
        let ghost v0 = values@;
        let ghost k0 = pubkeys@;
        let ghost i0 = validator_index as int;
        let ghost c0 = validator_cache@;
//@loop-end 0
        proof {
            if v0[0].0 == vg(i0, 6) { assert(values@ =~= v0.skip(1)); }
            else { assert(values@ =~= v0.skip(7)); assert(pubkeys@ =~= k0.skip(1)); assert(entry_ok(v0, i0, k0[0])); assert(validator_cache@ =~= c0.push((i0 as usize, entry(v0, k0[0])))); }
        }
//@end
} // verus!
