// Attesting indices (core/src/attestation.rs).
verus! {
/// the members of committee cm whose bit is set, cm's bits starting at off
pub open spec fn att_pick<'a>(bits: Seq<bool>, off: int) -> spec_fn((usize, &'a usize)) -> Option<usize> { |p: (usize, &'a usize)| if off + p.0 < bits.len() && bits[off + p.0] { Some(*p.1) } else { None } }
pub open spec fn att_members(cm: Seq<usize>, bits: Seq<bool>, off: int) -> Seq<usize> { sfilter_map(senum(srefs(cm)), att_pick(bits, off)) }
/// attesters and bit offset after the first k selected committees; None: rejected
pub open spec fn att_upto(c: Comm, slot: int, idxs: Seq<u64>, bits: Seq<bool>, k: int) -> Option<(Set<usize>, int)> decreases k {
    if k <= 0 { Some((Set::empty(), 0)) } else {
        match (att_upto(c, slot, idxs, bits, k - 1), committee_at(c, slot, idxs[k - 1] as int)) {
            (Some((s, off)), Some(cm)) => if att_members(cm, bits, off).len() == 0 { None } else { Some((s.union(att_members(cm, bits, off).to_set()), off + cm.len())) },
            _ => None,
        }
    }
}
pub open spec fn att_s(c: Comm, slot: int, idxs: Seq<u64>, bits: Seq<bool>) -> Option<Set<usize>> {
    match att_upto(c, slot, idxs, bits, idxs.len() as int) { Some((s, off)) => if off == bits.len() { Some(s) } else { None }, None => None }
}
pub open spec fn attesters<E: EthSpec>(a: AttestationElectra<E>, c: Comm) -> Option<Set<usize>> { att_s(c, a.data.slot.v as int, set_bits(a.committee_bits@, a.committee_bits@.len() as int), a.aggregation_bits@) }
pub proof fn set_bits_facts(b: Seq<bool>, k: int)
    requires 0 <= k <= b.len() <= 0xffff_ffff,
    ensures
        forall|i: int| 0 <= i < set_bits(b, k).len() ==> i <= #[trigger] set_bits(b, k)[i] < k,
        forall|i: int, j: int| 0 <= i < j < set_bits(b, k).len() ==> #[trigger] set_bits(b, k)[i] < #[trigger] set_bits(b, k)[j],
        set_bits(b, k).len() <= k,
    decreases k,
{ if k > 0 { set_bits_facts(b, k - 1); } }
/// offsets only grow, a rejection is final
pub proof fn att_mono(c: Comm, slot: int, idxs: Seq<u64>, bits: Seq<bool>, j: int, k: int)
    requires 0 <= j <= k,
    ensures
        att_upto(c, slot, idxs, bits, j) is None ==> att_upto(c, slot, idxs, bits, k) is None,
        att_upto(c, slot, idxs, bits, j) is Some && att_upto(c, slot, idxs, bits, k) is Some ==> att_upto(c, slot, idxs, bits, j)->Some_0.1 <= att_upto(c, slot, idxs, bits, k)->Some_0.1,
    decreases k,
{ if j < k { att_mono(c, slot, idxs, bits, j, k - 1); } }
pub proof fn committee_len(c: Comm, slot: int, idx: int)
    requires comm_ok(c), slot >= 0, committee_at(c, slot, idx) is Some,
    ensures committee_at(c, slot, idx)->0.len() <= c.shuffled.len(), idx < c.cps,
{
    index_facts(slot, c.spe, c.cps, idx, c.shuffled.len() as int);
    lo_facts(c.shuffled.len() as int, c.cps * c.spe, (slot % c.spe) * c.cps + idx);
}
//@fn core/src/attestation.rs | get_attesting_indices | {"for_wrap": "vf_into_iter", "paths": {"committee_cache::CommitteeCache": "CommitteeCache", "committee_cache::Error": "Error"}}
//@reject attesters(*attn, committee_cache.v()) is None
//@requires
        committee_cache.wf(),
//@ensures
        match attesters(*attn, committee_cache.v()) { Some(s) => vr is Ok && vr->Ok_0@ == s, None => vr is Err },
//@after-let committee_offset
        let ghost c = committee_cache.v();
        let ghost slot = attn.data.slot.v as int;
        let ghost bits = attn.aggregation_bits@;
        let ghost idxs = committee_indices@;
        proof { set_bits_facts(attn.committee_bits@, attn.committee_bits@.len() as int); assert(us(committee_offset) == 0); assert(c.shuffled.len() * 0 == 0); }
//@loop 0
        invariant
            committee_cache.wf(), c == committee_cache.v(), slot == attn.data.slot.v, bits == attn.aggregation_bits@,
            idxs == set_bits(attn.committee_bits@, attn.committee_bits@.len() as int),
            it.seq() == idxs,
            att_upto(c, slot, idxs, bits, it.index@) == Some((attesting_indices@, us(committee_offset))),
            us(committee_offset) <= c.shuffled.len() * it.index@,
            forall|i: int| 0 <= i < idxs.len() ==> i <= #[trigger] idxs[i],
//@loop-begin 0
        let ghost k = it.index@;
        proof {
            assert(committee_index == idxs[k]);
            att_mono(c, slot, idxs, bits, k + 1, idxs.len() as int);
            if committee_at(c, slot, committee_index as int) is Some {
                committee_len(c, slot, committee_index as int);
                assert(c.shuffled.len() * (k + 1) <= c.shuffled.len() * (c.cps * c.spe)) by (nonlinear_arith)
                    requires k + 1 <= c.cps, c.spe > 0, c.cps > 0, c.shuffled.len() >= 0, k >= 0;
                assert(c.shuffled.len() * (k + 1) == c.shuffled.len() * k + c.shuffled.len()) by (nonlinear_arith);
            }
        }
//@closure 0
        |$0: (usize, &usize)| -> (r: Option<usize>)
            requires committee_offset + $0.0 <= usize::MAX, attesters(*attn, committee_cache.v()) is None || committee_offset + $0.0 < attn.aggregation_bits@.len(),
            ensures r == att_pick(attn.aggregation_bits@, committee_offset as int)($0)
//@closure-ghost 0
att_pick(attn.aggregation_bits@, committee_offset as int)
//@loop-after 0
        proof { broadcast use axiom_ascending; assert(ascending(attesting_indices@).to_set() =~= attesting_indices@); }
//@end
} // verus!
