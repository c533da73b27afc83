// Registry look-ahead and state patches in the guest (core/src/input_reader/guest_input_reader.rs, state_patch.rs).
verus! {
//@item core/src/state_patch.rs | struct | StatePatch
impl StatePatch {
//@fn core/src/state_patch.rs | StatePatch::new
//@ensures
        vr.randao_mixes@ == Seq::<(u32, B256)>::empty(), vr.validator_exits@ == Seq::<(usize, Epoch)>::empty(),
//@end
//@fn core/src/state_patch.rs | StatePatch::is_active_validator
//@ensures
        vr == patched_active(*self, *idx, *validator, epoch),
//@end
}
/// C20: the registry's own activity, minus exits the patch records at or before the epoch
pub open spec fn patched_active(p: StatePatch, idx: usize, v: ValidatorInfo, e: Epoch) -> bool {
    active_at(v, e) && match lookup(p.validator_exits@, idx) { Some(x) => e.v < x.v, None => true }
}
//@fn core/src/state_patch.rs | static EMPTY_STATE_PATCH
//@ensures
        vr.randao_mixes@ == Seq::<(u32, B256)>::empty(), vr.validator_exits@ == Seq::<(usize, Epoch)>::empty(),
//@end
// a reference to that static
#[verifier::external_body]
pub fn vf_static_ref<T>(x: T) -> (r: &'static T) ensures *r == x { unimplemented!() }

// ---- C18 ----
pub open spec fn after_lookahead(s: ChainSpec, e: Epoch) -> int { e.v + 1 + s.max_seed_lookahead.v }
pub open spec fn queued(v: ValidatorInfo, s: ChainSpec, cur: Epoch) -> ValidatorInfo {
    if queue_eligible(v, s) { ValidatorInfo { activation_eligibility_epoch: Epoch { v: sat(cur.v + 1) }, ..v } } else { v }
}
pub open spec fn activated(v: ValidatorInfo, s: ChainSpec, fin: Epoch, cur: Epoch) -> ValidatorInfo {
    if activation_eligible(v, s, fin) { ValidatorInfo { activation_epoch: Epoch { v: after_lookahead(s, cur) as u64 }, ..v } } else { v }
}
pub open spec fn updated(r: Seq<(usize, ValidatorInfo)>, s: ChainSpec, fin: Epoch, cur: Epoch) -> Seq<(usize, ValidatorInfo)> {
    Seq::new(r.len(), |i: int| (r[i].0, activated(queued(r[i].1, s, cur), s, fin, cur)))
}
//@fn core/src/input_reader/guest_input_reader.rs | process_registry_updates
//@reject after_lookahead(*spec, current_epoch) > u64::MAX
//@ensures
        after_lookahead(*spec, current_epoch) <= u64::MAX,
        final(registry)@ =~= updated(old(registry)@, *spec, finalized_checkpoint_epoch, current_epoch),
//@loop 0
            invariant
                vf_n0 == registry@.len(), registry@.len() == old(registry)@.len(), vf_i0 <= vf_n0,
                after_lookahead(*spec, current_epoch) <= u64::MAX, activation_epoch.v == after_lookahead(*spec, current_epoch),
                forall|j: int| 0 <= j < vf_i0 ==> #[trigger] registry@[j] == updated(old(registry)@, *spec, finalized_checkpoint_epoch, current_epoch)[j],
                forall|j: int| vf_i0 <= j < vf_n0 ==> #[trigger] registry@[j] == old(registry)@[j],
            decreases vf_n0 - vf_i0,
//@end
//@fn core/src/input_reader/guest_input_reader.rs | get_balance_churn_limit
//@ensures
        match churn_limit(*spec, total_active_balance as int) { Some(c) => vr == Ok::<u64, ArithError>(c), None => vr is Err },
//@begin
    proof { churn_facts(*spec, total_active_balance as int); }
//@end
pub proof fn churn_facts(s: ChainSpec, total: int)
    requires 0 <= total <= u64::MAX,
    ensures s.churn_limit_quotient != 0 && s.effective_balance_increment != 0 ==> 0 <= total / s.churn_limit_quotient as int <= total && ({
        let c = max_i(s.min_per_epoch_churn_limit_electra as int, total / s.churn_limit_quotient as int);
        0 <= c <= u64::MAX && 0 <= c % s.effective_balance_increment as int <= c
    }),
{
    if s.churn_limit_quotient != 0 && s.effective_balance_increment != 0 {
        let q = s.churn_limit_quotient as int; let n = s.effective_balance_increment as int;
        assert(0 <= total / q <= total) by (nonlinear_arith) requires q >= 1, total >= 0;
        let c = max_i(s.min_per_epoch_churn_limit_electra as int, total / q);
        assert(0 <= c % n <= c) by (nonlinear_arith) requires n >= 1, c >= 0;
    }
}
pub open spec fn churn_limit(s: ChainSpec, total: int) -> Option<u64> {
    if s.churn_limit_quotient == 0 || s.effective_balance_increment == 0 { None } else {
        let c = max_i(s.min_per_epoch_churn_limit_electra as int, total / s.churn_limit_quotient as int);
        Some((c - c % s.effective_balance_increment as int) as u64)
    }
}

// ---- the input and its errors ----
//@item core/src/input_reader/guest_input_reader.rs | enum | GuestReaderError
impl vstd::std_specs::convert::FromSpecImpl<ArithError> for GuestReaderError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: ArithError) -> Self { GuestReaderError::ArithError(e) }
}
impl From<ArithError> for GuestReaderError {
//@fn core/src/input_reader/guest_input_reader.rs | From<ArithError> for GuestReaderError::from | {"vis": ""}
//@ensures
        vr == GuestReaderError::ArithError(e),
//@end
}
#[verifier::reject_recursive_types(E)]
//@item core/src/input_reader/guest_input_reader.rs | struct | GuestInput

// ---- C19 ----
pub ghost struct Pc { pub spec: ChainSpec, pub vals: Seq<(usize, ValidatorInfo)>, pub patches: Seq<(Epoch, StatePatch)>, pub churn: int, pub trusted: Epoch }
/// the exit epoch of the preceding epoch's patch, or of the proven state
pub open spec fn before(c: Pc, pe: Epoch, idx: usize, v: ValidatorInfo) -> Epoch {
    if pe.v >= 1 && lookup(c.patches, Epoch { v: (pe.v - 1) as u64 }) is Some && lookup(lookup(c.patches, Epoch { v: (pe.v - 1) as u64 })->0.validator_exits@, idx) is Some {
        lookup(lookup(c.patches, Epoch { v: (pe.v - 1) as u64 })->0.validator_exits@, idx)->0
    } else { v.exit_epoch }
}
/// remaining budget, earliest exit epoch now allowed, and whether every allowance so far fits 64 bits
pub ghost struct Bud { pub left: int, pub earliest: int, pub fits: bool }
pub open spec fn exit_step(c: Pc, pe: Epoch, idx: usize, exit: Epoch, b: Bud) -> Option<Bud> {
    match lookup(c.vals, idx) {
        None => None,
        Some(v) => if before(c, pe, idx, v) == exit { Some(b) }
            else if before(c, pe, idx, v) != c.spec.far_future_epoch || exit.v < b.earliest { None }
            else {
                let have = b.left + (exit.v - b.earliest) * c.churn;
                if have < v.effective_balance { None } else { Some(Bud { left: have - v.effective_balance, earliest: exit.v as int, fits: b.fits && have <= u64::MAX }) }
            },
    }
}
pub open spec fn exits_of<'a>(p: StatePatch) -> Seq<(&'a usize, &'a Epoch)> { ssorted(pair_refs(p.validator_exits@), |x: (&'a usize, &'a Epoch)| x.1.v) }
pub open spec fn exits_run(c: Pc, pe: Epoch, s: Seq<(&usize, &Epoch)>, k: int, earliest: int) -> Option<Bud> decreases k {
    if k <= 0 { Some(Bud { left: c.churn, earliest, fits: true }) } else {
        match exits_run(c, pe, s, k - 1, earliest) { None => None, Some(b) => exit_step(c, pe, *s[k - 1].0, *s[k - 1].1, b) }
    }
}
pub open spec fn patch_run(c: Pc, j: int, earliest: int) -> Option<Bud> decreases j {
    if j <= 0 { Some(Bud { left: 0, earliest, fits: true }) } else {
        match patch_run(c, j - 1, earliest) {
            None => None,
            Some(b) => if c.patches[j - 1].0.v < c.trusted.v { None } else {
                match exits_run(c, c.patches[j - 1].0, exits_of(c.patches[j - 1].1), exits_of(c.patches[j - 1].1).len() as int, b.earliest) {
                    None => None,
                    Some(x) => Some(Bud { left: 0, earliest: x.earliest, fits: b.fits && x.fits }),
                }
            },
        }
    }
}
pub open spec fn active_records<'a>(vals: Seq<(usize, ValidatorInfo)>, e: Epoch) -> Seq<&'a ValidatorInfo> {
    sfilter_map(pair_refs(vals), |x: (&'a usize, &'a ValidatorInfo)| if active_at(*x.1, e) { Some(x.1) } else { None::<&'a ValidatorInfo> })
}
/// twice the per-epoch balance churn at the trusted epoch
pub open spec fn allowance(s: ChainSpec, vals: Seq<(usize, ValidatorInfo)>, e: Epoch) -> Option<int> {
    match total_s(s, balances(active_records(vals, e))) {
        None => None,
        Some(t) => match churn_limit(s, t as int) { None => None, Some(c) => if 2 * c <= u64::MAX { Some(2 * c) } else { None } },
    }
}
pub open spec fn first_exit(s: ChainSpec, st: StateInfo, e: Epoch) -> int {
    max_i(min_i(st.earliest_exit_epoch.v as int, st.earliest_consolidation_epoch.v as int), after_lookahead(s, e))
}
pub open spec fn patches_run(s: ChainSpec, trusted: Checkpoint, st: StateInfo, vals: Seq<(usize, ValidatorInfo)>, patches: Seq<(Epoch, StatePatch)>) -> Option<Bud> {
    match allowance(s, vals, trusted.0.epoch) {
        None => None,
        Some(churn) => if after_lookahead(s, trusted.0.epoch) > u64::MAX { None } else {
            patch_run(Pc { spec: s, vals, patches, churn, trusted: trusted.0.epoch }, patches.len() as int, first_exit(s, st, trusted.0.epoch))
        },
    }
}
/// C19
pub open spec fn patches_ok(s: ChainSpec, trusted: Checkpoint, st: StateInfo, vals: Seq<(usize, ValidatorInfo)>, patches: Seq<(Epoch, StatePatch)>) -> bool { patches_run(s, trusted, st, vals, patches) is Some }
pub open spec fn patches_fit(s: ChainSpec, trusted: Checkpoint, st: StateInfo, vals: Seq<(usize, ValidatorInfo)>, patches: Seq<(Epoch, StatePatch)>) -> bool { patches_ok(s, trusted, st, vals, patches) && patches_run(s, trusted, st, vals, patches)->0.fits }
pub proof fn exits_mono(c: Pc, pe: Epoch, s: Seq<(&usize, &Epoch)>, j: int, k: int, earliest: int)
    requires 0 <= j <= k,
    ensures exits_run(c, pe, s, k, earliest) is Some ==> exits_run(c, pe, s, j, earliest) is Some && (exits_run(c, pe, s, k, earliest)->0.fits ==> exits_run(c, pe, s, j, earliest)->0.fits),
    decreases k,
{ if j < k { exits_mono(c, pe, s, j, k - 1, earliest); } }
pub proof fn patch_mono(c: Pc, j: int, k: int, earliest: int)
    requires 0 <= j <= k,
    ensures patch_run(c, k, earliest) is Some ==> patch_run(c, j, earliest) is Some && (patch_run(c, k, earliest)->0.fits ==> patch_run(c, j, earliest)->0.fits),
    decreases k,
{ if j < k { patch_mono(c, j, k - 1, earliest); } }
/// balance of the exits that change something among the first k
pub open spec fn exiting(c: Pc, pe: Epoch, s: Seq<(&usize, &Epoch)>, k: int) -> int decreases k {
    if k <= 0 { 0 } else {
        exiting(c, pe, s, k - 1) + match lookup(c.vals, *s[k - 1].0) { None => 0, Some(v) => if before(c, pe, *s[k - 1].0, v) == *s[k - 1].1 { 0 } else { v.effective_balance as int } }
    }
}
/// C19: an accepted patch lets no more balance exit than the allowance accumulated up to its last exit epoch
pub proof fn c19_budget(c: Pc, pe: Epoch, s: Seq<(&usize, &Epoch)>, k: int, earliest: int)
    requires exits_run(c, pe, s, k, earliest) is Some, c.churn >= 0, 0 <= k,
    ensures ({
        let b = exits_run(c, pe, s, k, earliest)->0;
        b.left >= 0 && b.earliest >= earliest && exiting(c, pe, s, k) + b.left == c.churn + (b.earliest - earliest) * c.churn
            && exiting(c, pe, s, k) <= c.churn * (1 + b.earliest - earliest)
    }),
    decreases k,
{
    if k > 0 {
        c19_budget(c, pe, s, k - 1, earliest);
        let b = exits_run(c, pe, s, k - 1, earliest)->0; let d = exits_run(c, pe, s, k, earliest)->0;
        assert((d.earliest - b.earliest) * c.churn + (b.earliest - earliest) * c.churn == (d.earliest - earliest) * c.churn) by (nonlinear_arith);
    }
    let d = exits_run(c, pe, s, k, earliest)->0;
    assert(c.churn * (1 + d.earliest - earliest) == c.churn + (d.earliest - earliest) * c.churn) by (nonlinear_arith);
}
/// C19: accepted exits concern known validators whose exit was unset, and are not too early
pub proof fn c19_each(c: Pc, pe: Epoch, s: Seq<(&usize, &Epoch)>, n: int, k: int, earliest: int)
    requires exits_run(c, pe, s, n, earliest) is Some, 0 <= k < n, c.churn >= 0,
    ensures ({
        let idx = *s[k].0; let exit = *s[k].1;
        lookup(c.vals, idx) is Some && (before(c, pe, idx, lookup(c.vals, idx)->0) == exit || (before(c, pe, idx, lookup(c.vals, idx)->0) == c.spec.far_future_epoch && exit.v >= earliest))
    }),
{ exits_mono(c, pe, s, k + 1, n, earliest); exits_mono(c, pe, s, k, n, earliest); c19_budget(c, pe, s, k, earliest); }
// sorting by key: the same elements, ascending keys (any order among equal ones)
pub uninterp spec fn ssorted<A>(s: Seq<A>, key: spec_fn(A) -> u64) -> Seq<A>;
#[verifier::external_body]
pub broadcast proof fn axiom_sorted<A>(s: Seq<A>, key: spec_fn(A) -> u64)
    ensures (#[trigger] ssorted(s, key)).to_multiset() == s.to_multiset(), ssorted(s, key).len() == s.len(), forall|i: int, j: int| 0 <= i < j < s.len() ==> key(#[trigger] ssorted(s, key)[i]) <= key(#[trigger] ssorted(s, key)[j]) {}
impl<T> VIter<T> {
    #[verifier::external_body]
    pub fn sorted_unstable_by_key<F: Fn(&T) -> u64>(self, f: F, Ghost(p): Ghost<spec_fn(T) -> u64>) -> (r: VIter<T>)
        requires
            forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&#[trigger] self@[i],)),
            forall|i: int, b: u64| 0 <= i < self@.len() && #[trigger] call_ensures(f, (&self@[i],), b) ==> b == p(self@[i]),
        ensures r@ == ssorted(self@, p),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn sorted_by_key<F: Fn(&T) -> u64>(self, f: F, Ghost(p): Ghost<spec_fn(T) -> u64>) -> (r: VIter<T>)
        requires
            forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&#[trigger] self@[i],)),
            forall|i: int, b: u64| 0 <= i < self@.len() && #[trigger] call_ensures(f, (&self@[i],), b) ==> b == p(self@[i]),
        ensures r@ == ssorted(self@, p),
    { unimplemented!() }
}
impl<'a, E: EthSpec> GuestInput<'a, E> {
//@fn core/src/input_reader/guest_input_reader.rs | GuestInput::validate_state_patches | {"arith": "wrapping"}
//@reject !patches_fit(*spec, *trusted_checkpoint, *state, validators@, self.patches@)
//@ensures
        match vr {
            Ok(_) => patches_ok(*spec, *trusted_checkpoint, *state, validators@, self.patches@),
            Err(_) => !patches_ok(*spec, *trusted_checkpoint, *state, validators@, self.patches@),
        },
//@begin
        let ghost all_fit = patches_fit(*spec, *trusted_checkpoint, *state, validators@, self.patches@);
        let ghost te = trusted_checkpoint.0.epoch;
//@closure 0
        |$0: (&usize, &ValidatorInfo)| -> (r: Option<&ValidatorInfo>) ensures r == (if active_at(*$0.1, te) { Some($0.1) } else { None })
//@closure-ghost 0
|x: (&usize, &ValidatorInfo)| if active_at(*x.1, te) { Some(x.1) } else { None }
//@closure 1
        |$0: &(&usize, &Epoch)| -> (r: u64) ensures r == $0.1.v
//@closure-ghost 1
|x: (&usize, &Epoch)| x.1.v
//@closure 2
        |$0: Epoch| -> (r: Option<&StatePatch>) ensures match lookup(self.patches@, $0) { Some(v) => r is Some && *r->0 == v, None => r is None }
//@closure 3
        |$0: &StatePatch| -> (r: Option<&Epoch>) ensures match lookup($0.validator_exits@, *idx) { Some(v) => r is Some && *r->0 == v, None => r is None }
//@loop 0
        invariant
            it.seq() == pair_refs(self.patches@),
            te == trusted_checkpoint.0.epoch,
            all_fit == patches_fit(*spec, *trusted_checkpoint, *state, validators@, self.patches@),
            allowance(*spec, validators@, te) == Some(churn as int), after_lookahead(*spec, te) <= u64::MAX,
            patch_run(pc(*spec, validators@, self.patches@, churn, te), it.index@, first_exit(*spec, *state, te)) is Some,
            patch_run(pc(*spec, validators@, self.patches@, churn, te), it.index@, first_exit(*spec, *state, te))->0.earliest == earliest_exit_epoch.v,
//@loop-begin 0
            let ghost k = it.index@;
            let ghost c = pc(*spec, validators@, self.patches@, churn, te);
            let ghost before0 = earliest_exit_epoch.v as int;
            let ghost exits = exits_of(*patch);
            proof {
                let n = self.patches@.len() as int;
                assert(patch_epoch == self.patches@[k].0 && *patch == self.patches@[k].1);
                if all_fit { patch_mono(c, k + 1, n, first_exit(*spec, *state, te)); }
            }
//@loop 1
                invariant
                    it.seq() == exits, exits == exits_of(*patch), c == pc(*spec, validators@, self.patches@, churn, te),
                    all_fit == patches_fit(*spec, *trusted_checkpoint, *state, validators@, self.patches@),
                    all_fit ==> exits_run(c, patch_epoch, exits, exits.len() as int, before0) is Some && exits_run(c, patch_epoch, exits, exits.len() as int, before0)->0.fits,
                    exits_run(c, patch_epoch, exits, it.index@, before0) is Some,
                    exits_run(c, patch_epoch, exits, it.index@, before0)->0.earliest == earliest_exit_epoch.v,
                    exits_run(c, patch_epoch, exits, it.index@, before0)->0.left >= exit_balance_to_consume,
                    exits_run(c, patch_epoch, exits, it.index@, before0)->0.fits ==> exits_run(c, patch_epoch, exits, it.index@, before0)->0.left == exit_balance_to_consume,
//@loop-begin 1
                let ghost b = exits_run(c, patch_epoch, exits, it.index@, before0)->0;
                proof {
                    if all_fit { exits_mono(c, patch_epoch, exits, it.index@ + 1, exits.len() as int, before0); }
                    assert(idx == exits[it.index@].0 && exit_epoch == *exits[it.index@].1);
                    let x = exit_epoch.v - earliest_exit_epoch.v;
                    if x >= 0 { assert(x * churn >= 0) by (nonlinear_arith) requires x >= 0, churn >= 0; wrap_le(x * churn); wrap_le(exit_balance_to_consume + wrap(x * churn)); }
                }
//@end
}
pub open spec fn pc(s: ChainSpec, vals: Seq<(usize, ValidatorInfo)>, patches: Seq<(Epoch, StatePatch)>, churn: u64, e: Epoch) -> Pc { Pc { spec: s, vals, patches, churn: churn as int, trusted: e } }
} // verus!
