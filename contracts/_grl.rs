// The properties of the guest reader as lemmas over its contract.
verus! {
use ssz_multiproofs::{has_leaf, value_leaf};
/// some tree with this root carries chunk c at generalized index g
pub open spec fn opens(t: Tree, root: Root, g: int, c: Seq<u8>) -> bool { troot(t) == bytes_of(root) && has_leaf(t, g, c) }
pub open spec fn proven(root: Root, g: int, c: Seq<u8>) -> bool { exists|t: Tree| opens(t, root, g, c) }
pub open spec fn proven_u64(root: Root, g: int, x: u64) -> bool { exists|c: Seq<u8>| #[trigger] proven(root, g, c) && le_val(c) == x }
pub open spec fn proven_version(root: Root, g: int, x: Seq<u8>) -> bool { exists|c: Seq<u8>| #[trigger] proven(root, g, c) && x == c.subrange(0, 4) }
pub proof fn value_proven(p: &Multiproof<'_>, root: Root, i: int)
    requires proves_root(p, root), 0 <= i < value_seq(p).len(),
    ensures proven(root, value_seq(p)[i].0 as int, value_seq(p)[i].1@),
{
    let t = choose|t: Tree| #[trigger] shows(p, t) && troot(t) == bytes_of(root);
    value_leaf(p, t, i);
    assert(opens(t, root, value_seq(p)[i].0 as int, value_seq(p)[i].1@));
}
/// C16: every state field used is the content of that field's chunk, in a state whose root the trusted block carries
pub proof fn c16_bound<'a, E: EthSpec>(g: GuestInput<'a, E>, s: ChainSpec)
    requires g.basis_ok(s),
    ensures exists|b: Root| {
        let st = g.state_s()->0;
        &&& #[trigger] proven(g.consensus_state.finalized_checkpoint.0.root, 11, bytes_of(b))
        &&& proven(b, 65, bytes_of(st.genesis_validators_root))
        &&& proven_u64(b, 66, st.slot.v)
        &&& proven_version(b, 268, st.fork.previous_version@) && proven_version(b, 269, st.fork.current_version@) && proven_u64(b, 270, st.fork.epoch.v)
        &&& proven(b, 75, bytes_of(st.validators_root))
        &&& proven_u64(b, 168, st.finalized_checkpoint_epoch.v)
        &&& proven_u64(b, 95, st.earliest_exit_epoch.v)
        &&& proven_u64(b, 97, st.earliest_consolidation_epoch.v)
        &&& proves_root(&g.active_validators, st.validators_root)
        &&& st.fork == fork_s(s, Epoch { v: (st.slot.v as int / spe::<E>() as int) as u64 })
    },
{
    broadcast use {axiom_b256, axiom_b256_inv};
    let (bv, v) = (value_seq(&g.beacon_block), value_seq(&g.beacon_state));
    let b = block_s(bv)->0;
    let st = g.state_s()->0;
    assert(state_is(v, st));
    value_proven(&g.beacon_block, g.consensus_state.finalized_checkpoint.0.root, 0);
    assert(bytes_of(b) == bv[0].1@);
    assert(proven(g.consensus_state.finalized_checkpoint.0.root, 11, bytes_of(b)));
    value_proven(&g.beacon_state, b, 0); value_proven(&g.beacon_state, b, 1); value_proven(&g.beacon_state, b, 2);
    value_proven(&g.beacon_state, b, 3); value_proven(&g.beacon_state, b, 4); value_proven(&g.beacon_state, b, 5);
    value_proven(&g.beacon_state, b, 6); value_proven(&g.beacon_state, b, 7); value_proven(&g.beacon_state, b, 8);
    assert(bytes_of(st.genesis_validators_root) == v[0].1@);
    assert(bytes_of(st.validators_root) == v[5].1@);
    assert(proven(b, 66, v[1].1@) && proven(b, 268, v[2].1@) && proven(b, 269, v[3].1@) && proven(b, 270, v[4].1@) && proven(b, 168, v[6].1@) && proven(b, 95, v[7].1@) && proven(b, 97, v[8].1@));
}
/// C18: one epoch's update changes at most the two activation epochs, and only for validators that qualify
pub proof fn c18_epoch(r: Seq<(usize, ValidatorInfo)>, s: ChainSpec, fin: Epoch, cur: Epoch, i: int)
    requires 0 <= i < r.len(), after_lookahead(s, cur) <= u64::MAX,
    ensures ({
        let (v, w) = (r[i].1, updated(r, s, fin, cur)[i].1);
        let queue = v.activation_eligibility_epoch == s.far_future_epoch && v.effective_balance >= s.min_activation_balance;
        let eligible = if queue { sat(cur.v + 1) } else { v.activation_eligibility_epoch.v };
        let activate = eligible <= fin.v && v.activation_epoch == s.far_future_epoch;
        &&& updated(r, s, fin, cur).len() == r.len() && updated(r, s, fin, cur)[i].0 == r[i].0
        &&& w.activation_eligibility_epoch.v == eligible
        &&& w.activation_epoch.v == if activate { cur.v + 1 + s.max_seed_lookahead.v } else { v.activation_epoch.v as int }
        &&& w.pubkey == v.pubkey && w.effective_balance == v.effective_balance && w.slashed == v.slashed && w.exit_epoch == v.exit_epoch
    }),
{}
/// C18: the epochs applied are those from the proven state's through the justified one; the last with the trusted finalized epoch, the
/// others with the proven one
pub proof fn c18_epochs<'a, E: EthSpec>(g: GuestInput<'a, E>, s: ChainSpec, k: int)
    requires 0 <= k < epochs_between(g.from_epoch(), g.to_epoch()), g.to_epoch() <= u64::MAX, 0 <= g.from_epoch(),
    ensures
        g.ahead_s(s, 0) == g.registry_s()->0,
        g.ahead_s(s, k + 1) == updated(g.ahead_s(s, k), s,
            if g.from_epoch() + k == g.to_epoch() { g.consensus_state.finalized_checkpoint.0.epoch } else { g.state_s()->0.finalized_checkpoint_epoch },
            Epoch { v: (g.from_epoch() + k) as u64 }),
        g.validators_s(s) == g.ahead_s(s, epochs_between(g.from_epoch(), g.to_epoch())),
{}
/// C20: exactly the registry entries that qualify, each with its own record
pub proof fn c20_members(vals: Seq<(usize, ValidatorInfo)>, patch: Option<StatePatch>, e: Epoch, x: (usize, ValidatorInfo))
    ensures active_now(vals, patch, e).contains(x) <==> vals.contains(x) && active_at(x.1, e) && !(patch is Some && lookup(patch->0.validator_exits@, x.0) is Some && lookup(patch->0.validator_exits@, x.0)->0.v <= e.v),
    decreases vals.len(),
{
    let a = active_now(vals, patch, e);
    if vals.len() == 0 { assert(a =~= Seq::empty()); }
    else {
        let t = vals.skip(1); let b = active_now(t, patch, e);
        c20_members(t, patch, e, x);
        if vals.contains(x) { let i = choose|i: int| 0 <= i < vals.len() && vals[i] == x; if i > 0 { assert(t[i - 1] == x); } }
        if t.contains(x) { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; assert(vals[i + 1] == x); }
        if is_active_now(patch, vals[0], e) {
            assert(a == seq![vals[0]] + b);
            if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert(a[i + 1] == x); }
            if vals[0] == x { assert(a[0] == x); }
            if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; if i > 0 { assert(b[i - 1] == x); } }
        } else { assert(a == b); }
        assert(vals[0] == x ==> vals.contains(x));
    }
}
/// C20: a patch only removes, and the patch of another epoch has no effect
pub proof fn c20_patches(vals: Seq<(usize, ValidatorInfo)>, patches: Seq<(Epoch, StatePatch)>, other: Seq<(Epoch, StatePatch)>, e: Epoch, x: (usize, ValidatorInfo))
    ensures
        active_now(vals, lookup(patches, e), e).contains(x) ==> active_now(vals, None, e).contains(x),
        lookup(patches, e) == lookup(other, e) ==> active_now(vals, lookup(patches, e), e) == active_now(vals, lookup(other, e), e),
{ c20_members(vals, lookup(patches, e), e, x); c20_members(vals, None, e, x); }
/// C22: the slot given for a root is the slot field of a supplied proof that hashes to that root
pub proof fn c22_slot(ps: Seq<Multiproof<'_>>, k: int, r: Root)
    requires slots_ok(ps, k), 0 <= k <= ps.len(),
    ensures
        slot_at(ps, k, r) is Some ==> proven_u64(r, 8, slot_at(ps, k, r)->0),
        slot_at(ps, k, r) is None <==> forall|i: int| 0 <= i < k ==> root_of(#[trigger] &ps[i]) != Some(r),
    decreases k,
{
    broadcast use {axiom_b256, axiom_b256_inv, axiom_sha256_len};
    if k > 0 {
        c22_slot(ps, k - 1, r);
        let p = &ps[k - 1];
        assert(root_of(p) is Some && slot_in(p) is Some);
        if root_of(p) == Some(r) {
            let t = choose|t: Tree| shows(p, t);
            assert(troot(t).len() == 32);
            assert(troot(t) == bytes_of(r));
            value_proven(p, r, 0);
            assert(proven(r, 8, value_seq(p)[0].1@));
        }
    }
}
} // verus!
