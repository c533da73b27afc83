// Committees of an epoch (core/src/committee_cache.rs).
verus! {
//@item core/src/committee_cache.rs | enum | Error
} // verus!
verus! {
#[verifier::reject_recursive_types(E)]
//@item core/src/committee_cache.rs | struct | CommitteeCache
//@item core/src/committee_cache.rs | struct | ShuffleData

/// what a committee cache stands for
pub ghost struct Comm { pub epoch: Option<Epoch>, pub shuffled: Seq<usize>, pub cps: int, pub spe: int }
pub open spec fn ps(s: Seq<Option<NonZeroUsize>>) -> Seq<Option<NonZeroUsize>> { s }
/// first position of committee k of n in a list of len
pub open spec fn lo(len: int, n: int, k: int) -> int { (len * k) / n }
pub open spec fn committee_k(c: Comm, k: int) -> Seq<usize> { c.shuffled.subrange(lo(c.shuffled.len() as int, c.cps * c.spe, k), lo(c.shuffled.len() as int, c.cps * c.spe, k + 1)) }
pub open spec fn committee_at(c: Comm, slot: int, idx: int) -> Option<Seq<usize>> {
    if c.epoch is Some && c.spe > 0 && c.epoch->0.v == slot / c.spe && 0 <= idx < c.cps { Some(committee_k(c, (slot % c.spe) * c.cps + idx)) } else { None }
}
pub open spec fn comm_ok(c: Comm) -> bool { c.epoch is Some && c.cps > 0 && c.spe > 0 && c.cps * c.spe <= usize::MAX && c.shuffled.len() * (c.cps * c.spe) <= usize::MAX }
impl<E: EthSpec> CommitteeCache<E> {
    pub open spec fn v(&self) -> Comm { Comm { epoch: self.initialized_epoch, shuffled: self.shuffling@, cps: self.committees_per_slot as int, spe: self.slots_per_epoch as int } }
    pub open spec fn wf(&self) -> bool {
        &&& self.initialized_epoch is Some ==> comm_ok(self.v()) && self.slots_per_epoch == spe::<E>()
        &&& self.initialized_epoch is None ==> self.committees_per_slot == 0 && self.slots_per_epoch == 0 && self.shuffling@.len() == 0
        &&& forall|i: int| 0 <= i < self.shuffling_positions@.len() && (#[trigger] self.shuffling_positions@[i]) is Some ==> self.shuffling_positions@[i]->0.v > 0
    }
    /// the position table is the inverse of the shuffled list
    pub open spec fn inverse(&self) -> bool {
        &&& forall|p: int| 0 <= p < self.shuffling@.len() ==> #[trigger] self.shuffling@[p] < self.shuffling_positions@.len() && self.shuffling_positions@[self.shuffling@[p] as int] == Some(NonZeroUsize { v: (p + 1) as usize })
        &&& forall|x: int| 0 <= x < self.shuffling_positions@.len() && (#[trigger] self.shuffling_positions@[x]) is Some ==> {
                let p = self.shuffling_positions@[x]->0.v - 1;
                0 <= p < self.shuffling@.len() && self.shuffling@[p] == x
            }
    }
}
pub proof fn lo_facts(len: int, n: int, k: int)
    requires n > 0, len >= 0, 0 <= k < n,
    ensures 0 <= lo(len, n, k) <= lo(len, n, k + 1) <= len, lo(len, n, 0) == 0, lo(len, n, n) == len, len * k <= len * (k + 1) <= len * n,
{
    broadcast use vstd::arithmetic::mul::group_mul_is_commutative_and_distributive;
    assert(len * k <= len * (k + 1) <= len * n) by (nonlinear_arith) requires len >= 0, 0 <= k < n;
    assert(0 <= len * k) by (nonlinear_arith) requires len >= 0, 0 <= k;
    vstd::arithmetic::div_mod::lemma_div_is_ordered(len * k, len * (k + 1), n);
    vstd::arithmetic::div_mod::lemma_div_is_ordered(len * (k + 1), len * n, n);
    vstd::arithmetic::div_mod::lemma_div_is_ordered(0, len * k, n);
    vstd::arithmetic::div_mod::lemma_div_by_multiple(len, n);
    assert(0int / n == 0) by (nonlinear_arith) requires n > 0;
}
pub proof fn index_facts(slot: int, spe: int, cps: int, idx: int, len: int)
    requires spe > 0, 0 <= idx < cps, slot >= 0, len >= 0,
    ensures ({ let k = (slot % spe) * cps + idx; 0 <= k < cps * spe && len * (k + 1) <= len * (cps * spe) }), cps * spe > 0,
{
    let m = slot % spe;
    vstd::arithmetic::div_mod::lemma_mod_bound(slot, spe);
    let k = m * cps + idx;
    assert(0 <= m * cps) by (nonlinear_arith) requires m >= 0, cps > 0;
    assert(k < cps * spe) by (nonlinear_arith) requires 0 <= m < spe, 0 <= idx < cps, k == m * cps + idx;
    assert(len * (k + 1) <= len * (cps * spe)) by (nonlinear_arith) requires len >= 0, k + 1 <= cps * spe;
}
/// C13: the committees, in order, are consecutive slices that make up the whole list
pub open spec fn joined(c: Comm, k: int) -> Seq<usize> decreases k { if k <= 0 { Seq::empty() } else { joined(c, k - 1) + committee_k(c, k - 1) } }
pub proof fn partition(c: Comm, k: int)
    requires comm_ok(c), 0 <= k <= c.cps * c.spe,
    ensures
        joined(c, k) == c.shuffled.take(lo(c.shuffled.len() as int, c.cps * c.spe, k)),
        k == c.cps * c.spe ==> joined(c, k) == c.shuffled,
    decreases k,
{
    let (len, n) = (c.shuffled.len() as int, c.cps * c.spe);
    assert(n > 0) by (nonlinear_arith) requires c.cps > 0, c.spe > 0, n == c.cps * c.spe;
    lo_facts(len, n, 0);
    if k > 0 {
        partition(c, k - 1);
        lo_facts(len, n, k - 1);
        assert(joined(c, k) =~= c.shuffled.take(lo(len, n, k)));
    } else { assert(joined(c, k) =~= c.shuffled.take(0)); }
    if k == n { assert(c.shuffled.take(len) =~= c.shuffled); }
}
impl<E: EthSpec> CommitteeCache<E> {
//@fn core/src/committee_cache.rs | CommitteeCache::initialized
//@requires
        vf_arg1.indices@.len() * (vf_arg1.committees_per_slot * spe::<E>()) <= usize::MAX, vf_arg1.committees_per_slot * spe::<E>() <= usize::MAX,
//@ensures
        match shuffle_s(vf_arg1.indices@, spec.shuffle_round_count, bytes_of(vf_arg1.seed), false) {
            Some(s) => if vf_arg1.committees_per_slot > 0 && vf_arg1.indices@.len() > 0 && !vf_arg1.indices@.contains(usize::MAX) {
                    &&& vr is Ok
                    &&& vr->Ok_0.v() == (Comm { epoch: Some(epoch), shuffled: s, cps: vf_arg1.committees_per_slot as int, spe: spe::<E>() })
                    &&& vr->Ok_0.wf()
                    &&& s.to_multiset() == vf_arg1.indices@.to_multiset()
                    &&& s.no_duplicates() ==> vr->Ok_0.inverse()
                } else { vr is Err },
            None => vr is Err,
        },
//@begin
        proof {
            broadcast use axiom_b256;
            assert(bytes_of(vf_arg1.seed).subrange(0, 32) =~= bytes_of(vf_arg1.seed));
            broadcast use vstd::seq_lib::group_to_multiset_ensures;
            assert forall|a: Seq<usize>, b: Seq<usize>, p: int| #[trigger] a.to_multiset() == #[trigger] b.to_multiset() && 0 <= p < a.len() implies b.contains(#[trigger] a[p]) by {
                assert(a.contains(a[p])); assert(a.to_multiset().contains(a[p]));
            }
        }
//@after-let shuffling_positions
        proof {
            assert(shuffling@.len() == shuffling.len());
            assert forall|p: int| 0 <= p < shuffling@.len() implies #[trigger] shuffling@[p] <= max_validator_index by {
                assert(vf_arg1.indices@.contains(shuffling@[p]));
                let q = choose|q: int| 0 <= q < vf_arg1.indices@.len() && vf_arg1.indices@[q] == shuffling@[p];
                assert(*srefs(vf_arg1.indices@)[q] <= max_validator_index);
            }
        }
//@loop 0
        invariant
            it.seq() == senum(srefs(shuffling@)),
            shuffling@.len() <= usize::MAX,
            ps(shuffling_positions@).len() == max_validator_index + 1,
            forall|p: int| 0 <= p < shuffling@.len() ==> #[trigger] shuffling@[p] <= max_validator_index,
            shuffling@.no_duplicates() ==> forall|p: int| 0 <= p < it.index@ ==> ps(shuffling_positions@)[#[trigger] shuffling@[p] as int] == Some(NonZeroUsize { v: (p + 1) as usize }),
            forall|x: int| 0 <= x < ps(shuffling_positions@).len() && (#[trigger] ps(shuffling_positions@)[x]) is Some ==>
                0 < ps(shuffling_positions@)[x]->0.v <= it.index@ && shuffling@[ps(shuffling_positions@)[x]->0.v - 1] == x,
//@loop-after 0
        proof {
            broadcast use vstd::seq_lib::group_to_multiset_ensures;
            assert(shuffling@.to_multiset().len() == vf_arg1.indices@.to_multiset().len());
            assert(shuffling@.len() == vf_arg1.indices@.len());
            assert(!vf_arg1.indices@.contains(usize::MAX)) by {
                if vf_arg1.indices@.contains(usize::MAX) {
                    let q = choose|q: int| 0 <= q < vf_arg1.indices@.len() && vf_arg1.indices@[q] == usize::MAX;
                    assert(*srefs(vf_arg1.indices@)[q] <= max_validator_index);
                }
            }
        }
//@end
//@fn core/src/committee_cache.rs | CommitteeCache::is_initialized_at
//@ensures
        vr == (self.initialized_epoch == Some(epoch)),
//@end
//@fn core/src/committee_cache.rs | CommitteeCache::shuffling
//@ensures
        vr@ == self.shuffling@,
//@end
//@fn core/src/committee_cache.rs | CommitteeCache::get_beacon_committee
//@requires
        self.wf(),
//@ensures
        match committee_at(self.v(), slot.v as int, index as int) { Some(c) => vr is Ok && vr->Ok_0@ == c, None => vr is Err },
//@begin
        proof {
            if self.initialized_epoch is Some && index < self.committees_per_slot {
                index_facts(slot.v as int, self.slots_per_epoch as int, self.committees_per_slot as int, index as int, self.shuffling@.len() as int);
                lo_facts(self.shuffling@.len() as int, self.committees_per_slot * self.slots_per_epoch, (slot.v as int % self.slots_per_epoch as int) * self.committees_per_slot + index);
            }
        }
//@end
//@fn core/src/committee_cache.rs | CommitteeCache::get_beacon_committees_at_slot | {"methods": {"map": "map_rel"}}
//@requires
        self.wf(),
//@ensures
        vr is Ok <==> self.initialized_epoch is Some && self.initialized_epoch->0.v == slot.v as int / spe::<E>(),
        vr is Ok ==> vr->Ok_0@.len() == self.committees_per_slot && forall|i: int| 0 <= i < self.committees_per_slot ==> committee_at(self.v(), slot.v as int, i) == Some((#[trigger] vr->Ok_0@[i])@),
//@closure 0
        |$0: usize| -> (r: Result<&[usize], Error>)
            ensures match committee_at(self.v(), slot.v as int, $0 as int) { Some(c) => r is Ok && r->Ok_0@ == c, None => r is Err }
//@result
        proof {
            assert(committee_at(self.v(), slot.v as int, 0) is Some <==> self.initialized_epoch->0.v == slot.v as int / spe::<E>());
            if vf_r is Ok { let _ = vf_r->Ok_0@[0]; assert(vf_r->Ok_0@.len() > 0); assert(vf_r->Ok_0@[0]@ == vf_r->Ok_0@[0]@); }
        }
//@end
//@fn core/src/committee_cache.rs | CommitteeCache::active_validator_count
//@ensures
        vr == self.shuffling@.len(),
//@end
//@fn core/src/committee_cache.rs | CommitteeCache::epoch_committee_count
//@requires
        self.wf(),
//@ensures
        vr == self.committees_per_slot * self.slots_per_epoch,
//@end
//@fn core/src/committee_cache.rs | CommitteeCache::get_committee_count_per_slot
//@ensures
        vr == self.committees_per_slot,
//@end
//@fn core/src/committee_cache.rs | CommitteeCache::compute_committee
//@requires
        self.wf(), comm_ok(self.v()), 0 <= index < self.committees_per_slot * self.slots_per_epoch,
//@ensures
        vr is Some, vr->0@ == committee_k(self.v(), index as int),
//@begin
        proof { lo_facts(self.shuffling@.len() as int, self.committees_per_slot * self.slots_per_epoch, index as int); }
//@end
//@fn core/src/committee_cache.rs | CommitteeCache::compute_committee_range
//@requires
        self.wf(), self.shuffling@.len() * (index + 1) <= usize::MAX, index < usize::MAX,
//@ensures
        vr is Some <==> index < self.committees_per_slot * self.slots_per_epoch,
        vr is Some ==> vr->0.start == lo(self.shuffling@.len() as int, self.committees_per_slot * self.slots_per_epoch, index as int)
            && vr->0.end == lo(self.shuffling@.len() as int, self.committees_per_slot * self.slots_per_epoch, index + 1),
//@end
//@fn core/src/committee_cache.rs | CommitteeCache::shuffled_position
//@requires
        self.wf(), self.inverse(),
//@ensures
        vr is Some <==> self.shuffling@.contains(validator_index),
        vr is Some ==> vr->0 < self.shuffling@.len() && self.shuffling@[vr->0 as int] == validator_index,
//@closure 0
        |$0: NonZeroUsize| -> (r: usize) requires $0.v > 0 ensures r == $0.v - 1
//@end
}
} // verus!
