// Verification of attestations and links (core/src/verify.rs, config.rs).
verus! {
pub mod committee_cache { pub use super::Error; }
//@item core/src/config.rs | struct | Config
//@item core/src/verify.rs | enum | VerifyError
impl Config {
//@fn core/src/config.rs | Config::is_supported_version
//@ensures
        vr == (self.min_version.rank() <= fork_name.rank() <= self.max_version.rank()),
//@end
}
/// C08: the shipped thresholds are above two thirds
//@fn core/src/config.rs | static DEFAULT_CONFIG
//@ensures
        vr.justification_threshold_factor * 100 >= vr.justification_threshold_quotient * 85, //[C23]
        vr.justification_threshold_quotient > 0, vr.justification_threshold_factor * 3 > vr.justification_threshold_quotient * 2,
//@end
//@fn core/src/config.rs | static SEPOLIA_CONFIG
//@ensures
        vr.justification_threshold_quotient > 0, vr.justification_threshold_factor * 3 > vr.justification_threshold_quotient * 2,
//@end
// thiserror #[from]
impl From<ConsensusError> for VerifyError {
    #[verifier::external_body]
    fn from(e: ConsensusError) -> Self { unimplemented!() }
}
impl From<Error> for VerifyError {
    #[verifier::external_body]
    fn from(e: Error) -> Self { unimplemented!() }
}
impl vstd::std_specs::convert::FromSpecImpl<ArithError> for VerifyError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: ArithError) -> Self { VerifyError::ArithError(e) }
}
impl From<ArithError> for VerifyError {
//@fn core/src/verify.rs | From<ArithError> for VerifyError::from | {"vis": ""}
//@ensures
        vr == VerifyError::ArithError(e),
//@end
}

// ---- specification ----
/// C10
pub open spec fn link_supported(cfg: Config, spec: ChainSpec, trusted: Checkpoint, target: Epoch) -> bool {
    &&& cfg.min_version.rank() <= fork_name_s(spec, target).rank() <= cfg.max_version.rank()
    &&& target.v - trusted.e() <= cfg.epoch_lookahead_limit.v
}
/// C13, C14: the committees of a target epoch
pub open spec fn keys_of(s: Seq<(usize, ValidatorInfo)>) -> Seq<usize> { Seq::new(s.len(), |i: int| s[i].0) }
pub open spec fn epoch_seed<S: InputReader>(r: S, e: Epoch) -> Option<B256> {
    match seed_pos(r.s_chain(), ephv::<S::Spec>(), e) {
        Some(i) => match r.s_mix(e, i) { Some(Some(m)) => Some(seed_value(le4(domain_constant_s(r.s_chain(), Domain::BeaconAttester)), e, m)), _ => None },
        None => None,
    }
}
#[verifier::opaque]
pub open spec fn committees_of<S: InputReader>(r: S, active: Seq<(usize, ValidatorInfo)>, e: Epoch) -> Option<Comm> { committees_of_def(r, active, e) }
pub open spec fn committees_of_def<S: InputReader>(r: S, active: Seq<(usize, ValidatorInfo)>, e: Epoch) -> Option<Comm> {
    match (epoch_seed(r, e), committees_per_slot_s(spe::<S::Spec>(), active.len() as int, r.s_chain())) {
        (Some(seed), Some(cps)) => match shuffle_s(keys_of(active), r.s_chain().shuffle_round_count, bytes_of(seed), false) {
            Some(sh) => if active.len() > 0 && !keys_of(active).contains(usize::MAX) { Some(Comm { epoch: Some(e), shuffled: sh, cps, spe: spe::<S::Spec>() }) } else { None },
            None => None,
        },
        _ => None,
    }
}
/// the public keys of a set of validators, in ascending order; None if one is not active
pub open spec fn all_known(active: Seq<(usize, ValidatorInfo)>, s: Set<usize>) -> bool { forall|i: int| 0 <= i < ascending(s).len() ==> lookup(active, #[trigger] ascending(s)[i]) is Some }
pub open spec fn keys_for(active: Seq<(usize, ValidatorInfo)>, s: Set<usize>) -> Seq<PublicKey> { Seq::new(ascending(s).len(), |i: int| lookup(active, ascending(s)[i])->0.pubkey) }
pub open spec fn pubkeys_of(s: Seq<&ValidatorInfo>) -> Seq<PublicKey> { Seq::new(s.len(), |i: int| s[i].pubkey) }
/// C11: signature over exactly this data, in the attester domain of the fork at the target epoch
pub open spec fn sig_ok<S: InputReader>(r: S, keys: Seq<PublicKey>, d: AttestationData, sig: AggregateSignature) -> bool {
    &&& keys.len() > 0
    &&& match (r.s_fork(d.target.epoch), r.s_gvr()) {
            (Some(f), Some(g)) => aggregate_ok(sig, signing_root_s(d, domain_s(r.s_chain(), d.target.epoch, Domain::BeaconAttester, f, g)), keys),
            _ => false,
        }
}
/// C11: the validators an attestation credits; None: it is refused
#[verifier::opaque]
pub open spec fn credited<S: InputReader, E: EthSpec>(r: S, active: Seq<(usize, ValidatorInfo)>, c: Comm, a: Attestation<E>) -> Option<Set<usize>> { credited_def(r, active, c, a) }
pub open spec fn credited_def<S: InputReader, E: EthSpec>(r: S, active: Seq<(usize, ValidatorInfo)>, c: Comm, a: Attestation<E>) -> Option<Set<usize>> {
    match a {
        Attestation::Electra(at) => {
            if at.data.target.epoch.v == at.data.slot.v as int / spe::<E>() && at.data.index == 0 {
                match attesters(at, c) {
                    Some(s) => if all_known(active, s) && sig_ok(r, keys_for(active, s), at.data, at.signature) { Some(s) } else { None },
                    None => None,
                }
            } else { None }
        }
        _ => None,
    }
}
pub open spec fn credited_upto<S: InputReader, E: EthSpec>(r: S, active: Seq<(usize, ValidatorInfo)>, c: Comm, atts: Seq<&Attestation<E>>, k: int) -> Option<Set<usize>> decreases k {
    if k <= 0 { Some(Set::empty()) } else {
        match (credited_upto(r, active, c, atts, k - 1), credited(r, active, c, *atts[k - 1])) { (Some(a), Some(b)) => Some(a.union(b)), _ => None }
    }
}
/// C08: effective balance of the distinct, unslashed active validators in p
pub open spec fn stake(active: Seq<(usize, ValidatorInfo)>, p: Set<usize>) -> int decreases active.len() {
    if active.len() == 0 { 0 } else {
        stake(active.drop_last(), p) + (if p.contains(active.last().0) && !active.last().1.slashed { active.last().1.effective_balance as int } else { 0 })
    }
}
pub open spec fn all_stake(active: Seq<(usize, ValidatorInfo)>) -> int decreases active.len() { if active.len() == 0 { 0 } else { all_stake(active.drop_last()) + active.last().1.effective_balance } }
#[verifier::opaque]
pub open spec fn supermajority(cfg: Config, spec: ChainSpec, active: Seq<(usize, ValidatorInfo)>, p: Set<usize>) -> bool { supermajority_def(cfg, spec, active, p) }
pub open spec fn supermajority_def(cfg: Config, spec: ChainSpec, active: Seq<(usize, ValidatorInfo)>, p: Set<usize>) -> bool {
    match (total_s(spec, stake(active, p)), total_s(spec, all_stake(active))) {
        (Some(t), Some(a)) => {
            &&& t * cfg.justification_threshold_quotient >= a * cfg.justification_threshold_factor
            &&& t * 3 <= u64::MAX && a * 2 <= u64::MAX && t * 3 >= a * 2
        }
        _ => false,
    }
}
pub proof fn credited_is<S: InputReader, E: EthSpec>(r: S, c: Comm, a: Attestation<E>)
    ensures forall|s: Seq<(usize, ValidatorInfo)>| #[trigger] credited(r, s, c, a) == credited_def(r, s, c, a),
{ reveal(credited); }
pub proof fn credited_known<S: InputReader, E: EthSpec>(r: S, s: Seq<(usize, ValidatorInfo)>, c: Comm, a: Attestation<E>)
    ensures credited(r, s, c, a) is Some ==> all_known(s, credited(r, s, c, a)->0),
{ reveal(credited); }
pub proof fn committees_is<S: InputReader>(r: S, e: Epoch)
    ensures forall|s: Seq<(usize, ValidatorInfo)>| #[trigger] committees_of(r, s, e) == committees_of_def(r, s, e),
{ reveal(committees_of); }
pub proof fn supermajority_is(cfg: Config, spec: ChainSpec, active: Seq<(usize, ValidatorInfo)>, p: Set<usize>)
    ensures supermajority(cfg, spec, active, p) == supermajority_def(cfg, spec, active, p),
{ reveal(supermajority); }
pub type Key = (BtCheckpoint, BtCheckpoint);
pub open spec fn att_key<'a, E: EthSpec>() -> spec_fn(&'a Attestation<E>) -> Key { |a: &'a Attestation<E>| (a.data_s().source, a.data_s().target) }
pub open spec fn key_link(k: Key) -> Link { Link { source: Checkpoint(k.0), target: Checkpoint(k.1) } }
/// C08-C11: what one group of attestations does to the state
pub open spec fn step<S: InputReader>(cfg: Config, r: S, trusted: Checkpoint, st: ConsensusState, k: Key, atts: Seq<&Attestation<S::Spec>>) -> Option<ConsensusState> {
    let e = k.1.epoch;
    if st.finalized_checkpoint == trusted && link_supported(cfg, r.s_chain(), trusted, e) {
        match r.s_active(e) {
            Some(active) => match committees_of(r, active, e) {
                Some(c) => match credited_upto(r, active, c, atts, atts.len() as int) {
                    Some(p) => if supermajority(cfg, r.s_chain(), active, p) { applied(st, key_link(k)) } else { None },
                    None => None,
                },
                None => None,
            },
            None => None,
        }
    } else { None }
}
pub open spec fn run<S: InputReader>(cfg: Config, r: S, trusted: Checkpoint, st: ConsensusState, gs: Seq<(Key, Seq<&Attestation<S::Spec>>)>, k: int) -> Option<ConsensusState> decreases k {
    if k <= 0 { Some(st) } else { match run(cfg, r, trusted, st, gs, k - 1) { Some(s) => step(cfg, r, trusted, s, gs[k - 1].0, gs[k - 1].1), None => None } }
}
/// C09
#[verifier::opaque]
pub open spec fn verified<S: InputReader>(cfg: Config, r: S) -> Option<(ConsensusState, u64)> {
    match (r.s_state(), r.s_atts()) {
        (Some(st), Some(atts)) => if !valid(st) { None } else {
            let gs = chunks(srefs(atts), att_key::<S::Spec>());
            match run(cfg, r, st.finalized_checkpoint, st, gs, gs.len() as int) {
                Some(n) => if n.finalized_checkpoint != st.finalized_checkpoint { match r.s_slot(n.finalized_checkpoint.0.root) { Some(sl) => Some((n, sl)), None => None } } else { None },
                None => None,
            }
        }
        _ => None,
    }
}
pub proof fn run_none<S: InputReader>(cfg: Config, r: S, trusted: Checkpoint, st: ConsensusState, gs: Seq<(Key, Seq<&Attestation<S::Spec>>)>, j: int, k: int)
    requires j <= k, run(cfg, r, trusted, st, gs, j) is None,
    ensures run(cfg, r, trusted, st, gs, k) is None,
    decreases k - j,
{ if j < k { run_none(cfg, r, trusted, st, gs, j, k - 1); } }
pub proof fn credited_none<S: InputReader, E: EthSpec>(r: S, active: Seq<(usize, ValidatorInfo)>, c: Comm, atts: Seq<&Attestation<E>>, j: int, k: int)
    requires j <= k, credited_upto(r, active, c, atts, j) is None,
    ensures credited_upto(r, active, c, atts, k) is None,
    decreases k - j,
{ if j < k { credited_none(r, active, c, atts, j, k - 1); } }

/// sizes stay within 64 bits
pub proof fn committee_size(n: int, spe: int, s: ChainSpec)
    requires 0 <= n <= 0x7fff_ffff, 0 < spe <= 0xffff_ffff, committees_per_slot_s(spe, n, s) is Some,
    ensures ({ let c = committees_per_slot_s(spe, n, s)->0; 1 <= c && c * spe <= 0xffff_ffff && n * (c * spe) <= u64::MAX }),
{
    let c = committees_per_slot_s(spe, n, s)->0;
    let t = s.target_committee_size as int;
    let q = n / spe;
    assert(0 <= q && q * spe <= n) by (nonlinear_arith) requires q == n / spe, n >= 0, spe > 0;
    assert(0 <= q / t <= q) by (nonlinear_arith) requires q >= 0, t > 0;
    if c > 1 { assert(c * spe <= q * spe) by (nonlinear_arith) requires c <= q, spe > 0; }
    assert(n * (c * spe) <= 0x7fff_ffff * 0xffff_ffff) by (nonlinear_arith) requires 0 <= n <= 0x7fff_ffff, 0 <= c * spe <= 0xffff_ffff;
}
/// the map of active validators and the reader's sequence
pub open spec fn is_map(m: Seq<(usize, &ValidatorInfo)>, s: Seq<(usize, ValidatorInfo)>) -> bool { actives_are(m, s) && sorted_keys(s) }
pub proof fn sorted_map()
    ensures forall|m: Seq<(usize, &ValidatorInfo)>, s: Seq<(usize, ValidatorInfo)>| #[trigger] actives_are(m, s) && sorted_keys(s) ==> sorted_keys(m),
{ reveal(sorted_keys); }
pub proof fn lookup_at<V>(s: Seq<(usize, V)>, i: int)
    requires sorted_keys(s), 0 <= i < s.len(),
    ensures lookup(s, s[i].0) == Some(s[i].1),
{
    reveal(sorted_keys); reveal(lookup);
    let k = s[i].0;
    assert(s[i].0 == k);
    let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == k;
    assert(s[j].0 == k);
    if i < j { assert(s[i].0 < s[j].0); } else if j < i { assert(s[j].0 < s[i].0); }
}
pub open spec fn agree(m: Seq<(usize, &ValidatorInfo)>, s: Seq<(usize, ValidatorInfo)>) -> bool {
    forall|k: usize| #![trigger lookup(m, k)] #![trigger lookup(s, k)] (lookup(m, k) is Some <==> lookup(s, k) is Some) && (lookup(m, k) is Some ==> *lookup(m, k)->0 == lookup(s, k)->0)
}
pub proof fn lookup_map(m: Seq<(usize, &ValidatorInfo)>, s: Seq<(usize, ValidatorInfo)>)
    requires is_map(m, s),
    ensures agree(m, s),
{
    reveal(sorted_keys); reveal(lookup);
    assert(sorted_keys(m));
    assert forall|k: usize| #![trigger lookup(m, k)] #![trigger lookup(s, k)] (lookup(m, k) is Some <==> lookup(s, k) is Some) && (lookup(m, k) is Some ==> *lookup(m, k)->0 == lookup(s, k)->0) by {
        if lookup(m, k) is Some {
            let i = choose|i: int| 0 <= i < m.len() && (#[trigger] m[i]).0 == k;
            lookup_at(m, i); assert(s[i].0 == k); lookup_at(s, i);
        }
        if lookup(s, k) is Some {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k;
            lookup_at(s, i); assert(m[i].0 == k); lookup_at(m, i);
        }
    }
}
} // verus!
verus! {
//@fn core/src/verify.rs | validate_link
//@ensures
        vr is Ok <==> link_supported(*cfg, *spec, trusted_checkpoint, link.target.0.epoch),
//@end
//@fn core/src/verify.rs | is_valid_indexed_attestation | {"methods": {"map": "map_rel"}}
//@ensures
        vr is Ok && vr->Ok_0 <==> sig_ok(*input_reader, pubkeys_of(attesting_validators@), *data, *signature),
//@after-let pubkeys
        proof { assert(deref_seq(pubkeys@) =~= pubkeys_of(attesting_validators@)); }
//@closure 0
        |$0: &&ValidatorInfo| -> (r: &PublicKey) ensures *r == $0.pubkey
//@end
//@fn core/src/verify.rs | process_attestation | {"methods": {"map": "map_rel"}}
//@requires
        committees.wf(), exists|s: Seq<(usize, ValidatorInfo)>| #[trigger] is_map(active_validators@, s),
//@reject rej
//@ensures
        forall|s: Seq<(usize, ValidatorInfo)>| #[trigger] is_map(active_validators@, s) ==> match credited(*state, s, committees.v(), *attestation) {
            Some(p) => vr is Ok && vr->Ok_0@ == p,
            None => vr is Err,
        },
//@begin
        let ghost rej: bool = forall|s: Seq<(usize, ValidatorInfo)>| #[trigger] is_map(active_validators@, s) ==> credited(*state, s, committees.v(), *attestation) is None;
        proof {
            credited_is(*state, committees.v(), *attestation);
            assert forall|s: Seq<(usize, ValidatorInfo)>| #[trigger] is_map(active_validators@, s) implies agree(active_validators@, s) by { lookup_map(active_validators@, s); }
        }
//@closure 0
        |$0: &usize| -> (r: Result<&ValidatorInfo, VerifyError>) ensures match lookup(active_validators@, *$0) { Some(v) => r is Ok && r->Ok_0 == v, None => r is Err }
//@after-let attesting_validators
        proof {
            let asc = ascending(attesting_indices@);
            assert(attesting_validators@.len() == asc.len());
            assert forall|i: int| 0 <= i < asc.len() implies lookup(active_validators@, #[trigger] asc[i]) == Some(attesting_validators@[i]) by {}
            assert forall|s: Seq<(usize, ValidatorInfo)>| #[trigger] is_map(active_validators@, s) implies pubkeys_of(attesting_validators@) =~= keys_for(s, attesting_indices@) && all_known(s, attesting_indices@) by {}
        }
//@end
//@fn core/src/verify.rs | compute_committees
//@requires
        exists|s: Seq<(usize, ValidatorInfo)>| #[trigger] is_map(active_validators@, s), active_validators@.len() <= 0x7fff_ffff,
//@reject forall|s: Seq<(usize, ValidatorInfo)>| #[trigger] is_map(active_validators@, s) ==> committees_of(*input_reader, s, epoch) is None
//@ensures
        forall|s: Seq<(usize, ValidatorInfo)>| #[trigger] is_map(active_validators@, s) ==> match committees_of(*input_reader, s, epoch) {
            Some(c) => vr is Ok && vr->Ok_0.v() == c && vr->Ok_0.wf(),
            None => vr is Err,
        },
//@begin
        proof { committees_is(*input_reader, epoch); }
//@after-let indices
        proof { assert forall|s: Seq<(usize, ValidatorInfo)>| #[trigger] is_map(active_validators@, s) implies indices@ =~= keys_of(s) by {} }
//@after-let committees_per_slot
        proof { S::Spec::vf_bounds(); committee_size(indices@.len() as int, spe::<S::Spec>(), *spec); }
//@end
} // verus!
verus! {
// ---- the stake of a set of validators ----
pub open spec fn bal(s: Seq<(usize, ValidatorInfo)>, x: usize) -> int { if lookup(s, x)->0.slashed { 0 } else { lookup(s, x)->0.effective_balance as int } }
pub open spec fn un(s: Seq<(usize, ValidatorInfo)>, a: Seq<usize>) -> int decreases a.len() { if a.len() == 0 { 0 } else { un(s, a.drop_last()) + bal(s, a.last()) } }
pub open spec fn pick<'a, 'b>(m: Seq<(usize, &'a ValidatorInfo)>) -> spec_fn(&'b usize) -> &'b &'a ValidatorInfo { |i: &'b usize| &lookup(m, *i)->0 }
pub open spec fn unslashed<'a, 'b>() -> spec_fn(&'b &'a ValidatorInfo) -> bool { |v: &'b &'a ValidatorInfo| !v.slashed }
pub proof fn sfilter_last<A>(a: Seq<A>, p: spec_fn(A) -> bool)
    requires a.len() > 0,
    ensures sfilter(a, p) == sfilter(a.drop_last(), p) + (if p(a.last()) { seq![a.last()] } else { Seq::empty() }),
    decreases a.len(),
{
    reveal_with_fuel(sfilter, 2);
    if a.len() > 1 {
        sfilter_last(a.skip(1), p);
        assert(a.skip(1).drop_last() =~= a.drop_last().skip(1));
        assert(a.skip(1).last() == a.last());
        assert(sfilter(a, p) =~= sfilter(a.drop_last(), p) + (if p(a.last()) { seq![a.last()] } else { Seq::empty() }));
    } else {
        assert(a.skip(1) =~= Seq::<A>::empty());
        assert(a.drop_last() =~= Seq::<A>::empty());
        assert(sfilter(a, p) =~= sfilter(a.drop_last(), p) + (if p(a.last()) { seq![a.last()] } else { Seq::empty() }));
    }
}
pub proof fn filtered_sum<'a, 'b>(m: Seq<(usize, &'a ValidatorInfo)>, s: Seq<(usize, ValidatorInfo)>, a: Seq<usize>)
    requires is_map(m, s), forall|i: int| 0 <= i < a.len() ==> lookup(s, #[trigger] a[i]) is Some,
    ensures balances(sfilter(smap(srefs(a), pick(m)), unslashed())) == un(s, a),
    decreases a.len(),
{
    let x = smap(srefs(a), pick(m));
    lookup_map(m, s);
    if a.len() > 0 {
        let p = unslashed();
        assert forall|i: int| 0 <= i < a.drop_last().len() implies lookup(s, #[trigger] a.drop_last()[i]) is Some by { assert(a.drop_last()[i] == a[i]); }
        filtered_sum(m, s, a.drop_last());
        assert(x.drop_last() =~= smap(srefs(a.drop_last()), pick(m)));
        sfilter_last(x, p);
        let f = sfilter(x.drop_last(), p);
        assert(a.last() == a[a.len() - 1]);
        assert(x.last() == &lookup(m, a.last())->0);
        if p(x.last()) {
            assert((f + seq![x.last()]).drop_last() =~= f);
            assert((f + seq![x.last()]).last() == x.last());
            assert(balances(f + seq![x.last()]) == balances(f) + x.last().ref_s().effective_balance);
        } else { assert(f + Seq::<&'b &'a ValidatorInfo>::empty() =~= f); }
    } else { assert(x =~= Seq::<&'b &'a ValidatorInfo>::empty()); }
}
pub proof fn stake_same(s: Seq<(usize, ValidatorInfo)>, p: Set<usize>, q: Set<usize>)
    requires forall|i: int| 0 <= i < s.len() ==> (p.contains((#[trigger] s[i]).0) <==> q.contains(s[i].0)),
    ensures stake(s, p) == stake(s, q),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies (p.contains((#[trigger] s.drop_last()[i]).0) <==> q.contains(s.drop_last()[i].0)) by { assert(s.drop_last()[i] == s[i]); }
        stake_same(s.drop_last(), p, q);
        assert(s.last() == s[s.len() - 1]);
    }
}
pub proof fn stake_none(s: Seq<(usize, ValidatorInfo)>)
    ensures stake(s, Set::empty()) == 0,
    decreases s.len(),
{ if s.len() > 0 { stake_none(s.drop_last()); } }
pub proof fn lookup_prefix(s: Seq<(usize, ValidatorInfo)>, x: usize)
    requires sorted_keys(s), s.len() > 0, lookup(s, x) is Some, x != s.last().0,
    ensures lookup(s.drop_last(), x) == lookup(s, x), x < s.last().0,
{
    reveal(sorted_keys); reveal(lookup);
    let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == x;
    let n = s.len() - 1;
    assert(s.last() == s[n]);
    assert(i < n && s[i].0 < s[n].0);
    lookup_at(s, i);
    assert(s.drop_last()[i] == s[i]);
    assert(sorted_keys(s.drop_last())) by {
        assert forall|i: int, j: int| 0 <= i < j < s.drop_last().len() implies (#[trigger] s.drop_last()[i]).0 < (#[trigger] s.drop_last()[j]).0 by { assert(s[i].0 < s[j].0); }
    }
    lookup_at(s.drop_last(), i);
}
pub proof fn un_prefix(s: Seq<(usize, ValidatorInfo)>, a: Seq<usize>)
    requires sorted_keys(s), s.len() > 0, forall|i: int| 0 <= i < a.len() ==> lookup(s, #[trigger] a[i]) is Some && a[i] != s.last().0,
    ensures un(s.drop_last(), a) == un(s, a),
    decreases a.len(),
{
    if a.len() > 0 {
        assert forall|i: int| 0 <= i < a.drop_last().len() implies lookup(s, #[trigger] a.drop_last()[i]) is Some && a.drop_last()[i] != s.last().0 by { assert(a.drop_last()[i] == a[i]); }
        un_prefix(s, a.drop_last());
        assert(a.last() == a[a.len() - 1]);
        lookup_prefix(s, a.last());
    }
}
/// C08: summing over the ascending list of distinct members is summing over the registry entries that are members
pub proof fn stake_is(s: Seq<(usize, ValidatorInfo)>, a: Seq<usize>, p: Set<usize>)
    requires
        sorted_keys(s),
        forall|i: int, j: int| 0 <= i < j < a.len() ==> #[trigger] a[i] < #[trigger] a[j],
        forall|i: int| 0 <= i < a.len() ==> lookup(s, #[trigger] a[i]) is Some,
        forall|x: usize| #[trigger] p.contains(x) <==> a.contains(x),
    ensures un(s, a) == stake(s, p),
    decreases s.len(),
{
    reveal(sorted_keys); reveal(lookup);
    if a.len() == 0 {
        assert(p =~= Set::<usize>::empty()) by { assert forall|x: usize| !p.contains(x) by { assert(!a.contains(x)); } }
        stake_none(s);
    } else if s.len() == 0 {
        assert(lookup(s, a[0]) is Some);
    } else {
        let d = s.drop_last();
        let k = s.last().0;
        let n = a.len() - 1;
        assert(a.last() == a[n] && s.last() == s[s.len() - 1]);
        assert(sorted_keys(d)) by {
            assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).0 < (#[trigger] d[j]).0 by { assert(s[i].0 < s[j].0); }
        }
        if a.last() == k {
            let b = a.drop_last();
            let q = p.remove(k);
            assert forall|i: int| 0 <= i < b.len() implies lookup(s, #[trigger] b[i]) is Some && b[i] != k by { assert(b[i] == a[i]); assert(a[i] < a[n]); }
            assert forall|i: int| 0 <= i < b.len() implies lookup(d, #[trigger] b[i]) is Some by { lookup_prefix(s, b[i]); }
            assert forall|i: int, j: int| 0 <= i < j < b.len() implies #[trigger] b[i] < #[trigger] b[j] by { assert(a[i] < a[j]); }
            assert forall|x: usize| #[trigger] q.contains(x) <==> b.contains(x) by {
                if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert(a[i] == x); assert(a.contains(x)); }
                if q.contains(x) { assert(a.contains(x)); let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(i != n); assert(b[i] == x); }
            }
            stake_is(d, b, q);
            un_prefix(s, b);
            assert forall|i: int| 0 <= i < d.len() implies (p.contains((#[trigger] d[i]).0) <==> q.contains(d[i].0)) by { assert(s[i].0 < s[s.len() - 1].0); }
            stake_same(d, p, q);
            assert(a.contains(k)) by { assert(a[n] == k); }
            lookup_at(s, s.len() - 1);
        } else {
            assert forall|i: int| 0 <= i < a.len() implies a[i] != k && lookup(d, #[trigger] a[i]) is Some by {
                lookup_prefix(s, a[n]);
                if i < n { assert(a[i] < a[n]); }
                lookup_prefix(s, a[i]);
            }
            stake_is(d, a, p);
            un_prefix(s, a);
            assert(!a.contains(k));
        }
    }
}
pub proof fn stake_of<'a, 'b>(m: Seq<(usize, &'a ValidatorInfo)>, s: Seq<(usize, ValidatorInfo)>, p: Set<usize>)
    requires is_map(m, s), all_known(s, p),
    ensures balances(sfilter(smap(srefs(ascending(p)), pick(m)), unslashed())) == stake(s, p),
{
    broadcast use axiom_ascending;
    filtered_sum(m, s, ascending(p));
    stake_is(s, ascending(p), p);
}
pub proof fn all_of<'a, 'b>(m: Seq<(usize, &'a ValidatorInfo)>, s: Seq<(usize, ValidatorInfo)>, v: Seq<&'b &'a ValidatorInfo>)
    requires actives_are(m, s), v.len() == m.len(), forall|i: int| 0 <= i < v.len() ==> *(#[trigger] v[i]) == m[i].1,
    ensures balances(v) == all_stake(s),
    decreases s.len(),
{
    if s.len() > 0 {
        assert(actives_are(m.drop_last(), s.drop_last())) by {
            assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] m.drop_last()[i]).0 == s.drop_last()[i].0 && *m.drop_last()[i].1 == s.drop_last()[i].1 by { assert(m[i].0 == s[i].0); }
        }
        assert forall|i: int| 0 <= i < v.drop_last().len() implies *(#[trigger] v.drop_last()[i]) == m.drop_last()[i].1 by { assert(*v[i] == m[i].1); }
        all_of(m.drop_last(), s.drop_last(), v.drop_last());
        let n = s.len() - 1;
        assert(m[n].0 == s[n].0);
        assert(*v[n] == m[n].1);
    }
}
pub proof fn known_union(active: Seq<(usize, ValidatorInfo)>, a: Set<usize>, b: Set<usize>)
    requires all_known(active, a), all_known(active, b),
    ensures all_known(active, a.union(b)),
{
    broadcast use axiom_ascending;
    assert forall|i: int| 0 <= i < ascending(a.union(b)).len() implies lookup(active, #[trigger] ascending(a.union(b))[i]) is Some by {
        let x = ascending(a.union(b))[i];
        assert(ascending(a.union(b)).contains(x));
        assert(a.union(b).contains(x));
        if a.contains(x) { assert(ascending(a).contains(x)); } else { assert(ascending(b).contains(x)); }
    }
}
pub open spec fn groups<'a, S: InputReader>(r: S) -> Seq<(Key, Seq<&'a Attestation<S::Spec>>)> { chunks(srefs(r.s_atts()->0), att_key::<S::Spec>()) }
/// a refused group refuses the whole input
pub proof fn refused<S: InputReader>(cfg: Config, r: S, st0: ConsensusState, j: int, st: ConsensusState)
    requires
        r.s_state() == Some(st0), r.s_atts() is Some, 0 <= j < groups(r).len(),
        run(cfg, r, st0.finalized_checkpoint, st0, groups(r), j) == Some(st),
    ensures
        run(cfg, r, st0.finalized_checkpoint, st0, groups(r), j + 1) == step(cfg, r, st0.finalized_checkpoint, st, groups(r)[j].0, groups(r)[j].1),
        step(cfg, r, st0.finalized_checkpoint, st, groups(r)[j].0, groups(r)[j].1) is None ==> verified(cfg, r) is None,
{
    reveal(verified);
    if step(cfg, r, st0.finalized_checkpoint, st, groups(r)[j].0, groups(r)[j].1) is None { run_none(cfg, r, st0.finalized_checkpoint, st0, groups(r), j + 1, groups(r).len() as int); }
}
pub proof fn credit_step<S: InputReader, E: EthSpec>(r: S, active: Seq<(usize, ValidatorInfo)>, c: Comm, atts: Seq<&Attestation<E>>, j: int, p: Set<usize>)
    requires 0 <= j < atts.len(), credited_upto(r, active, c, atts, j) == Some(p),
    ensures
        match credited(r, active, c, *atts[j]) {
            Some(q) => credited_upto(r, active, c, atts, j + 1) == Some(p.union(q)),
            None => credited_upto(r, active, c, atts, atts.len() as int) is None,
        },
{
    if credited(r, active, c, *atts[j]) is None { credited_none(r, active, c, atts, j + 1, atts.len() as int); }
}
pub proof fn no_input<S: InputReader>(cfg: Config, r: S)
    ensures r.s_state() is None || r.s_atts() is None || !valid(r.s_state()->0) ==> verified(cfg, r) is None,
{ reveal(verified); }
pub proof fn verdict<S: InputReader>(cfg: Config, r: S, n: ConsensusState)
    requires
        r.s_state() is Some, r.s_atts() is Some, valid(r.s_state()->0),
        run(cfg, r, r.s_state()->0.finalized_checkpoint, r.s_state()->0, groups(r), groups(r).len() as int) == Some(n),
    ensures
        n.finalized_checkpoint == r.s_state()->0.finalized_checkpoint || r.s_slot(n.finalized_checkpoint.0.root) is None ==> verified(cfg, r) is None,
        n.finalized_checkpoint != r.s_state()->0.finalized_checkpoint && r.s_slot(n.finalized_checkpoint.0.root) is Some ==> verified(cfg, r) == Some((n, r.s_slot(n.finalized_checkpoint.0.root)->0)),
{ reveal(verified); }
//@fn core/src/verify.rs | verify | {"for_wrap": "vf_into_iter"}
//@requires
        cfg.justification_threshold_quotient > 0, input_reader.s_wf(),
//@reject rej
//@ensures
        match verified(*cfg, *input_reader) { Some(x) => vr is Ok && vr->Ok_0 == x, None => vr is Err },
//@begin
        let ghost rej = verified(*cfg, *input_reader) is None;
        let ghost r = *input_reader;
        proof { no_input(*cfg, r); }
//@after-let trusted_checkpoint
        let ghost st0 = consensus_state;
        let ghost gs = groups(r);
        proof {
            assert(run(*cfg, r, trusted_checkpoint, st0, gs, 0) == Some(st0));
        }
//@closure 0
        |$0: &&Attestation<S::Spec>| -> (k: Key) ensures k == att_key::<S::Spec>()(*$0)
//@closure-ghost 0
att_key::<S::Spec>()
//@loop 0
        invariant
            cfg.justification_threshold_quotient > 0, input_reader.s_wf(), r == *input_reader, *spec == r.s_chain(),
            rej == (verified(*cfg, r) is None),
            r.s_state() == Some(st0), r.s_atts() is Some, trusted_checkpoint == st0.finalized_checkpoint,
            gs == groups(r),
            it.seq().len() == gs.len(), forall|i: int| 0 <= i < gs.len() ==> (#[trigger] it.seq()[i]).0 == gs[i].0 && it.seq()[i].1@ == gs[i].1,
            run(*cfg, r, trusted_checkpoint, st0, gs, it.index@) == Some(consensus_state), valid(st0) ==> valid(consensus_state), !valid(st0) ==> rej, it.index@ > 0 ==> valid(st0),
//@loop-begin 0
        let ghost j = it.index@;
        let ghost key = gs[j].0;
        let ghost group = gs[j].1;
        proof {
            assert(link == key && attestations@ == group);
            refused(*cfg, r, st0, j, consensus_state);
            sorted_map();
        }
//@after-let active_validators
        let ghost active = r.s_active(target_epoch)->0;
        proof { assert(is_map(active_validators@, active)); lookup_map(active_validators@, active); }
//@after-let participating_indices
        proof {
            broadcast use axiom_ascending;
            assert(all_known(active, Set::empty()));
            assert(credited_upto(r, active, committees.v(), group, 0) == Some(Set::<usize>::empty()));
        }
//@loop 1 it
at
//@loop 1
        invariant
            is_map(active_validators@, active), committees.wf(), r == *input_reader,
            at.seq() == group,
            credited_upto(r, active, committees.v(), group, at.index@) == Some(participating_indices@),
            all_known(active, participating_indices@),
            credited_upto(r, active, committees.v(), group, group.len() as int) is None ==> rej, rej == (verified(*cfg, r) is None),
//@loop-begin 1
        proof { credit_step(r, active, committees.v(), group, at.index@, participating_indices@); }
//@after-let attesting_indices
        proof {
            credited_known(r, active, committees.v(), *attestation);
            assert(all_known(active, attesting_indices@));
            known_union(active, participating_indices@, attesting_indices@);
            broadcast use axiom_ascending;
            assert(ascending(attesting_indices@).to_set() =~= attesting_indices@);
        }
//@loop-after 1
        proof {
            stake_of(active_validators@, active, participating_indices@);
            all_of(active_validators@, active, values_of(active_validators@));
            supermajority_is(*cfg, r.s_chain(), active, participating_indices@);
            assert(!supermajority(*cfg, r.s_chain(), active, participating_indices@) ==> rej);
        }
//@closure 2
        |$0: &usize| -> (v: &&ValidatorInfo) requires lookup(active_validators@, *$0) is Some ensures v == pick(active_validators@)($0)
//@closure-ghost 2
pick(active_validators@)
//@closure 3
        |$0: &&&ValidatorInfo| -> (b: bool) ensures b == unslashed()(*$0)
//@closure-ghost 3
unslashed()
//@loop-after 0
    proof { if valid(st0) { verdict(*cfg, r, consensus_state); } else { assert(gs.len() == 0); assert(consensus_state == st0); } }
//@after-let total_active_balance
        proof {
            assert(target_balance * cfg.justification_threshold_quotient <= u64::MAX * u64::MAX) by (nonlinear_arith) requires 0 <= target_balance <= u64::MAX, 0 <= cfg.justification_threshold_quotient <= u64::MAX;
            assert(total_active_balance * cfg.justification_threshold_factor <= u64::MAX * u64::MAX) by (nonlinear_arith) requires 0 <= total_active_balance <= u64::MAX, 0 <= cfg.justification_threshold_factor <= u64::MAX;
        }
//@end
} // verus!
