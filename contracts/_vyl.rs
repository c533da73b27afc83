// The properties as lemmas over the contract of verify (`verified`).
verus! {
/// every group of an accepted input was accepted by `step` from the state the preceding groups led to
pub proof fn every_group<S: InputReader>(cfg: Config, r: S, trusted: Checkpoint, st0: ConsensusState, gs: Seq<(Key, Seq<&Attestation<S::Spec>>)>, j: int, n: int)
    requires 0 <= j < n <= gs.len(), run(cfg, r, trusted, st0, gs, n) is Some,
    ensures
        run(cfg, r, trusted, st0, gs, j) is Some,
        run(cfg, r, trusted, st0, gs, j + 1) == step(cfg, r, trusted, run(cfg, r, trusted, st0, gs, j)->0, gs[j].0, gs[j].1),
        step(cfg, r, trusted, run(cfg, r, trusted, st0, gs, j)->0, gs[j].0, gs[j].1) is Some,
{
    if run(cfg, r, trusted, st0, gs, j + 1) is None { run_none(cfg, r, trusted, st0, gs, j + 1, n); }
}
pub open spec fn state_before<S: InputReader>(cfg: Config, r: S, j: int) -> ConsensusState { run(cfg, r, r.s_state()->0.finalized_checkpoint, r.s_state()->0, groups(r), j)->0 }
pub open spec fn active_of<S: InputReader>(r: S, j: int) -> Seq<(usize, ValidatorInfo)> { r.s_active(groups(r)[j].0.1.epoch)->0 }
pub open spec fn attesters_of<S: InputReader>(r: S, j: int) -> Set<usize> {
    let g = groups(r)[j];
    credited_upto(r, active_of(r, j), committees_of(r, active_of(r, j), g.0.1.epoch)->0, g.1, g.1.len() as int)->0
}
/// a balance get_total_balance reports is the exact sum, floored at one increment
pub open spec fn floored(spec: ChainSpec, x: int) -> int { if x < spec.effective_balance_increment { spec.effective_balance_increment as int } else { x } }
/// C08: the stake behind every applied link is a true supermajority of the target epoch's active balance
pub proof fn c08_supermajority<S: InputReader>(cfg: Config, r: S, j: int)
    requires verified(cfg, r) is Some, 0 <= j < groups(r).len(),
    ensures ({
        let (t, a) = (floored(r.s_chain(), stake(active_of(r, j), attesters_of(r, j))), floored(r.s_chain(), all_stake(active_of(r, j))));
        t * cfg.justification_threshold_quotient >= a * cfg.justification_threshold_factor && t * 3 >= a * 2
    }),
{ reveal(verified); reveal(supermajority); every_group(cfg, r, r.s_state()->0.finalized_checkpoint, r.s_state()->0, groups(r), j, groups(r).len() as int); }
/// C08: adding attestations of a validator already counted, or of a slashed one, adds no stake
pub proof fn c08_counted_once(active: Seq<(usize, ValidatorInfo)>, p: Set<usize>, q: Set<usize>)
    requires forall|i: int| 0 <= i < active.len() && q.contains((#[trigger] active[i]).0) ==> p.contains(active[i].0) || active[i].1.slashed,
    ensures stake(active, p.union(q)) == stake(active, p),
    decreases active.len(),
{
    if active.len() > 0 {
        let d = active.drop_last();
        assert forall|i: int| 0 <= i < d.len() && q.contains((#[trigger] d[i]).0) implies p.contains(d[i].0) || d[i].1.slashed by { assert(d[i] == active[i]); }
        c08_counted_once(d, p, q);
        assert(active.last() == active[active.len() - 1]);
    }
}
/// C08: the stake never exceeds the total
pub proof fn c08_bounded(active: Seq<(usize, ValidatorInfo)>, p: Set<usize>)
    ensures 0 <= stake(active, p) <= all_stake(active),
    decreases active.len(),
{ if active.len() > 0 { c08_bounded(active.drop_last(), p); } }
/// C08: the shipped thresholds demand more than two thirds
pub proof fn c08_shipped(t: int, a: int, q: int, f: int)
    requires q > 0, f * 3 > q * 2, a > 0, t * q >= a * f,
    ensures t * 3 > a * 2,
{ assert(t * 3 > a * 2) by (nonlinear_arith) requires q > 0, f * 3 > q * 2, a > 0, t * q >= a * f; }
/// C09: every group is applied from a state whose finalized checkpoint is still the trusted one; the result is the application of all
/// links in order, it is valid, and its finalized checkpoint is new
pub proof fn c09_chain<S: InputReader>(cfg: Config, r: S, j: int)
    requires verified(cfg, r) is Some, 0 <= j < groups(r).len(),
    ensures
        state_before(cfg, r, 0) == r.s_state()->0, valid(r.s_state()->0),
        state_before(cfg, r, j).finalized_checkpoint == r.s_state()->0.finalized_checkpoint,
        applied(state_before(cfg, r, j), key_link(groups(r)[j].0)) == Some(state_before(cfg, r, j + 1)),
        state_before(cfg, r, groups(r).len() as int) == verified(cfg, r)->Some_0.0,
        verified(cfg, r)->Some_0.0.finalized_checkpoint != r.s_state()->0.finalized_checkpoint,
        r.s_slot(verified(cfg, r)->Some_0.0.finalized_checkpoint.0.root) == Some(verified(cfg, r)->Some_0.1),
{ reveal(verified); every_group(cfg, r, r.s_state()->0.finalized_checkpoint, r.s_state()->0, groups(r), j, groups(r).len() as int); }
/// C09: without a group there is nothing to finalize
pub proof fn c09_empty<S: InputReader>(cfg: Config, r: S)
    requires r.s_atts() is Some, groups(r).len() == 0,
    ensures verified(cfg, r) is None,
{ reveal(verified); }
/// C10
pub proof fn c10_window<S: InputReader>(cfg: Config, r: S, j: int)
    requires verified(cfg, r) is Some, 0 <= j < groups(r).len(),
    ensures ({
        let e = groups(r)[j].0.1.epoch;
        &&& cfg.min_version.rank() <= fork_name_s(r.s_chain(), e).rank() <= cfg.max_version.rank()
        &&& e.v <= r.s_state()->0.finalized_checkpoint.0.epoch.v + cfg.epoch_lookahead_limit.v
    }),
{ reveal(verified); every_group(cfg, r, r.s_state()->0.finalized_checkpoint, r.s_state()->0, groups(r), j, groups(r).len() as int); }
/// C11: every attestation of every applied link was credited, which includes its signature check
pub proof fn c11_every_attestation<S: InputReader>(cfg: Config, r: S, j: int, k: int)
    requires verified(cfg, r) is Some, 0 <= j < groups(r).len(), 0 <= k < groups(r)[j].1.len(),
    ensures ({
        let g = groups(r)[j];
        let c = committees_of(r, active_of(r, j), g.0.1.epoch)->0;
        credited(r, active_of(r, j), c, *g.1[k]) is Some
    }),
{
    reveal(verified);
    every_group(cfg, r, r.s_state()->0.finalized_checkpoint, r.s_state()->0, groups(r), j, groups(r).len() as int);
    let g = groups(r)[j];
    let c = committees_of(r, active_of(r, j), g.0.1.epoch)->0;
    if credited(r, active_of(r, j), c, *g.1[k]) is None { credited_none(r, active_of(r, j), c, g.1, k + 1, g.1.len() as int); }
}
/// C11: the validators credited are exactly the attesters of the attestations
pub proof fn c11_exactly<S: InputReader, E: EthSpec>(r: S, active: Seq<(usize, ValidatorInfo)>, c: Comm, atts: Seq<&Attestation<E>>, n: int, x: usize)
    requires 0 <= n <= atts.len(), credited_upto(r, active, c, atts, n) is Some,
    ensures credited_upto(r, active, c, atts, n)->0.contains(x) <==> exists|k: int| 0 <= k < n && credited(r, active, c, *#[trigger] atts[k]) is Some && credited(r, active, c, *atts[k])->0.contains(x),
    decreases n,
{
    if n > 0 {
        c11_exactly(r, active, c, atts, n - 1, x);
        if credited(r, active, c, *atts[n - 1])->0.contains(x) { assert(credited(r, active, c, *atts[n - 1]) is Some); }
    }
}
} // verus!
