//! C24-C28: the host's readers over a stand-in node and stand-in states.
use crate::check;
use crate::common::*;
use crate::cs::{apply, cp, show_cp, show_st, state, unst, valid, Cp, St};
use crate::verify::{key, oracle_fork};
use alloy_primitives::B256;
use beacon_types::{Attestation, AttestationData, AttestationElectra, BitList, MinimalEthSpec};
use bls::AggregateSignature;
use ethereum_consensus::electra::{mainnet::SignedBeaconBlockHeader, BeaconBlockBody, BeaconState as State, Checkpoint as EcCheckpoint};
use ethereum_consensus::phase0::{BeaconBlockHeader, Fork as EcFork, Validator};
use ethereum_consensus::primitives::{BlsPublicKey, Bytes32};
use ethereum_consensus::types::mainnet::BeaconBlock;
use futures::executor::block_on;
use host::mainnet::BeaconState;
use host::{CacheStateProvider, ChainReader, HostInputReader, PreflightInputReader, StatePatchBuilder, StateProvider, StateProviderError, StateRef};
use ssz::Encode;
use ssz_rs::HashTreeRoot;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Display;
use std::sync::Arc;
use z_core::{ChainSpec, ConsensusState, Epoch, InputReader, Slot, ValidatorInfo};

type E = MinimalEthSpec;
const SPE: u64 = 8;
const FAR: u64 = u64::MAX;

// --------------------------------------------------------------------------------------------- the node
#[derive(Default, Clone)]
struct Node { states: BTreeMap<u64, St>, blocks: BTreeMap<u64, BeaconBlock>, headers: BTreeMap<String, BeaconBlockHeader>, down: BTreeSet<u64>, lies: RefCell<BTreeMap<String, BeaconBlockHeader>> }
impl ChainReader for &Node {
    async fn get_block_header(&self, id: impl Display) -> Result<Option<SignedBeaconBlockHeader>, anyhow::Error> {
        let lies = self.lies.borrow();
        Ok(lies.get(&id.to_string()).or(self.headers.get(&id.to_string())).map(|h| SignedBeaconBlockHeader { message: h.clone(), signature: vec![] }))
    }
    async fn get_block(&self, id: impl Display) -> Result<Option<BeaconBlock>, anyhow::Error> {
        let s: u64 = id.to_string().parse()?;
        if self.down.contains(&s) { anyhow::bail!("node down"); }
        Ok(self.blocks.get(&s).cloned())
    }
    async fn get_consensus_state(&self, id: impl Display) -> Result<ConsensusState, anyhow::Error> {
        let s: u64 = id.to_string().parse()?;
        self.states.get(&s).map(|s| state(*s)).ok_or_else(|| anyhow::anyhow!("no state at {s}"))
    }
}
struct States { by_slot: BTreeMap<u64, StateRef>, asked: RefCell<Vec<u64>> }
impl StateProvider for &States {
    type Spec = E;
    fn state_at_slot(&self, slot: Slot) -> Result<StateRef, StateProviderError> {
        self.asked.borrow_mut().push(slot.as_u64());
        self.by_slot.get(&slot.as_u64()).cloned().ok_or(StateProviderError::NotFound(slot))
    }
}
fn att(rng: &mut Rng, source: Cp, target: Cp, slot: u64) -> Attestation<E> {
    let c = |c: Cp| beacon_types::Checkpoint { epoch: Epoch::new(c.0), root: B256::from(c.1) };
    let bits = (0..4).map(|_| rng.bool()).collect();
    let mut signature = AggregateSignature::default();
    for i in 0..rng.below(2) { signature.sign(B256::from([i as u8; 32]), &key(i)); }
    Attestation::Electra(AttestationElectra { aggregation_bits: BitList(bits), data: AttestationData { slot: Slot::new(slot), index: 0, beacon_block_root: B256::from(rng.chunk()), source: c(source), target: c(target) }, signature, committee_bits: BitList((0..64).map(|_| rng.chance(1, 9)).collect()), _p: std::marker::PhantomData })
}
fn ec_att<const V: usize, const C: usize>(a: &Attestation<E>) -> ethereum_consensus::electra::Attestation<V, C> {
    ethereum_consensus::electra::Attestation { ssz: beacon_types::attestation::AttestationRefOnDisk::from(a.to_ref()).as_ssz_bytes()[1..].to_vec() }
}
type Link = (Cp, Cp);
/// Oracle: the single link between two states; None: no single link.
fn link(a: &St, b: &St) -> Option<Option<Link>> {
    if a == b { return Some(None); }
    let l = (a.0, b.0);
    (apply(a, &l.0, &l.1) == Some(*b)).then_some(Some(l))
}
struct Chain { trusted: Cp, node: Node, want: Result<(St, Vec<Link>), String>, links: Vec<Link> }
/// A history of reports from the epoch after the trusted one.
fn chain(rng: &mut Rng, broken: bool) -> Chain {
    let t = *rng.pick(&[0u64, 1, 5, 100, 1 << 40]);
    let trusted: Cp = (t, rng.chunk());
    let mut node = Node::default();
    let mut e = t + 1;
    let put = |node: &mut Node, e: u64, s: St| { node.states.insert(e * SPE, s); };
    // before the trusted checkpoint is final
    for _ in 0..rng.below(4) {
        if t == 0 { break; }
        let f: Cp = (rng.below(t), rng.chunk());
        put(&mut node, e, ((rng.range(f.0 + 1, e), rng.chunk()), f));
        e += 1;
    }
    let kind = if broken { rng.below(8) } else { 99 };
    if kind == 0 { // skipped: later, or the same epoch under another root
        let f: Cp = if rng.bool() { (t, rng.chunk()) } else { (t + rng.range(1, 2), trusted.1) };
        put(&mut node, e, ((f.0 + rng.range(1, 2), rng.chunk()), f));
        // either way the reports go on to a new finality
        let first: St = if rng.bool() { ((t + 3, rng.chunk()), trusted) } else { node.states[&(e * SPE)] };
        put(&mut node, e + 1, first);
        let l = (first.0, (first.0.0 + 1, rng.chunk()));
        if let Some(n) = apply(&first, &l.0, &l.1) { put(&mut node, e + 2, n); }
        return Chain { trusted, node, want: Err("trusted checkpoint skipped".into()), links: vec![] };
    }
    if kind == 1 { return Chain { trusted, node, want: Err("node has no further state".into()), links: vec![] }; }
    let first: St = ((t + rng.range(1, 3), rng.chunk()), trusted);
    put(&mut node, e, first);
    let mut cur = first;
    let mut links = vec![];
    let mut want = None;
    for step in 0..40u64 {
        e += 1;
        if kind == 2 && rng.chance(1, 3) { want = Some(Err("node has no further state".to_string())); break; }
        if kind == 3 && rng.chance(1, 3) { // not a single step
            let next = loop {
                let n: St = match rng.below(4) {
                    0 => ((cur.0.0 + 2, rng.chunk()), cur.0),                                   // finalized over a gap
                    1 => ((cur.0.0 + rng.range(1, 2), rng.chunk()), (rng.below(t + 1), rng.chunk())), // finalized something else
                    2 => (cur.0, (cur.0.0 - 1, rng.chunk())),                                    // finality without justification
                    _ => ((cur.0.0, rng.chunk()), cur.1),                                        // another root at the same epoch
                };
                if valid(&n) && link(&cur, &n).is_none() { break n; }
            };
            put(&mut node, e, next);
            want = Some(Err("not a single link".to_string()));
            break;
        }
        let next = match rng.below(6) {
            0 | 1 => cur,
            x => { let gap = if x == 5 || step > 12 { 1 } else { rng.range(2, 3) }; let l = (cur.0, (cur.0.0 + gap, rng.chunk())); links.push(l); apply(&cur, &l.0, &l.1).unwrap() }
        };
        put(&mut node, e, next);
        let done = next.1 != cur.1;
        cur = next;
        if done { want = Some(Ok((first, links.clone()))); break; }
    }
    // what the node says about later epochs does not matter
    for k in 1..4 { if rng.bool() { let s: St = ((cur.0.0 + 1 + k, rng.chunk()), cur.0); put(&mut node, e + k, s); } }
    let want = want.unwrap_or(Err("history too long".into()));
    Chain { trusted, node, want, links }
}
/// Blocks with attestations; returns what has to be collected, in order.
fn blocks(rng: &mut Rng, c: &mut Chain, spoil: bool) -> Result<Vec<Attestation<E>>, String> {
    let Some(lo) = c.links.iter().map(|l| l.1.0).min() else { return Ok(vec![]) };
    let hi = c.links.iter().map(|l| l.1.0).max().unwrap();
    let (a, b) = (lo * SPE, (hi + 1) * SPE);
    let mut other: Vec<Link> = vec![];
    for l in &c.links { other.push((l.1, l.0)); other.push((l.0, (l.1.0, rng.chunk()))); other.push(((l.0.0, rng.chunk()), l.1)); other.push((l.0, (l.1.0 + 1, l.1.1))); }
    let mut groups: Vec<Vec<Attestation<E>>> = vec![vec![]; c.links.len()];
    let mut slots: Vec<u64> = vec![a, b, b + 1, b - 1, a + 1, a.saturating_sub(1)];
    for _ in 0..8 { slots.push(rng.range(a, b)); }
    slots.sort(); slots.dedup();
    for s in slots {
        if rng.chance(1, 4) { continue; }
        let mut body = BeaconBlockBody { attestations: vec![] };
        for _ in 0..rng.below(4) {
            if rng.chance(3, 4) {
                let i = rng.below(c.links.len() as u64) as usize;
                let x = att(rng, c.links[i].0, c.links[i].1, s);
                body.attestations.push(ec_att(&x));
                if (a..=b).contains(&s) { groups[i].push(x.clone()); if rng.chance(1, 6) { body.attestations.push(ec_att(&x)); groups[i].push(x); } }
            } else { let l = *rng.pick(&other); body.attestations.push(ec_att(&att(rng, l.0, l.1, s))); }
        }
        c.node.blocks.insert(s, BeaconBlock::Electra(body));
    }
    if spoil {
        let s = rng.range(a.saturating_sub(1), b + 1);
        let inside = (a..=b).contains(&s);
        let what = match rng.below(3) {
            0 => { c.node.blocks.insert(s, BeaconBlock::Deneb(0)); "unsupported block" }
            1 => { c.node.down.insert(s); "node down" }
            _ => { c.node.blocks.insert(s, BeaconBlock::Electra(BeaconBlockBody { attestations: vec![ethereum_consensus::electra::Attestation { ssz: vec![1, 2, 3] }] })); "unreadable attestation" }
        };
        if inside { return Err(what.into()); }
        let mut g = groups; // nothing of that slot counts
        return Ok(g.drain(..).flatten().collect());
    }
    Ok(groups.into_iter().flatten().collect())
}
fn spec(rng: &mut Rng, t: u64) -> ChainSpec {
    let mut s = crate::verify::small_spec(rng);
    for (i, k) in s.forks.iter_mut().enumerate() { k.2 = Epoch::new(match i { 0..5 => 0, 5 => t.saturating_sub(1 + i as u64 % 3), _ => t + 1 + i as u64 % 2 }); k.1 = [i as u8, 3, 1, i as u8]; }
    for i in 1..s.forks.len() { s.forks[i].2 = s.forks[i].2.max(s.forks[i - 1].2); }
    s
}
fn show_chain(c: &Chain) -> String { format!("trusted {}; reports {}; blocks at {:?}", show_cp(&c.trusted), c.node.states.iter().map(|(s, x)| format!("epoch {}: {}", s / SPE, show_st(x))).collect::<Vec<_>>().join(", "), c.node.blocks.keys().collect::<Vec<_>>()) }
fn brief(a: &[Attestation<E>]) -> String { a.iter().map(|a| format!("slot {} {}->{}", a.data().slot, a.data().source.epoch, a.data().target.epoch)).collect::<Vec<_>>().join("; ") }

fn built(rng: &mut Rng, broken: bool, spoil: bool) -> Case {
    let mut c = chain(rng, broken);
    let atts = if c.want.is_ok() { blocks(rng, &mut c, spoil) } else { let _ = blocks(rng, &mut c, false); Ok(vec![]) };
    let none = States { by_slot: BTreeMap::new(), asked: RefCell::new(vec![]) };
    let spec = spec(rng, 1);
    let got = guard(|| block_on(HostInputReader::<E, _, _>::new(spec, &none, &c.node, cp(c.trusted))));
    let want = match (&c.want, &atts) { (Err(e), _) | (_, Err(e)) => Err(e.clone()), (Ok((s, _)), Ok(a)) => Ok((*s, a.clone())) };
    match (got, want) {
        (Ok(Ok(_)), Err(why)) => Err(format!("the reader is built although {why}; {}", show_chain(&c))),
        (Ok(Err(_)), Err(why)) => Ok(why),
        (Err(e), Err(why)) => Err(format!("panics ({e}) where an error is due ({why}); {}", show_chain(&c))),
        (Err(e), Ok(_)) => Err(format!("panics: {e}; {}", show_chain(&c))),
        (Ok(Err(e)), Ok(_)) => Err(format!("refuses ({e}) a complete chain; {}", show_chain(&c))),
        (Ok(Ok(r)), Ok((s, a))) => {
            let g = unst(&r.consensus_state().unwrap());
            check!(g == s, "starts from {} instead of {}; {}", show_st(&g), show_st(&s), show_chain(&c));
            let g: Vec<_> = r.attestations().unwrap().cloned().collect();
            check!(g == a, "attestations [{}] instead of [{}]; links {}; {}", brief(&g), brief(&a), c.links.iter().map(|l| format!("{}->{}", show_cp(&l.0), show_cp(&l.1))).collect::<Vec<_>>().join(" "), show_chain(&c));
            Ok(format!("{} links", c.links.len().min(6)))
        }
    }
}
pub fn c24(rng: &mut Rng, _case: u64) -> Case { let b = rng.chance(1, 2); built(rng, b, false) }
pub fn c25(rng: &mut Rng, _case: u64) -> Case { let s = rng.chance(1, 3); built(rng, false, s) }

// --------------------------------------------------------------------------------------------- states
fn validator(rng: &mut Rng, i: u64, t: u64) -> Validator {
    let exit = match rng.below(6) { 0 => t.saturating_sub(rng.below(2)), 1 => t + rng.range(1, 12), 2 => rng.corner(), _ => FAR };
    let act = match rng.below(6) { 0 => FAR, 1 => t + rng.below(3), 2 => rng.corner(), _ => rng.below(t + 1) };
    Validator { public_key: BlsPublicKey(key(i).serialize().to_vec()), withdrawal_credentials: Bytes32(rng.chunk().to_vec()), effective_balance: if rng.chance(1, 6) { *rng.pick(&[0, 1, 999_999_999, 2_048_000_000_000, 4_096_000_000_001, 1 << 50]) } else { rng.range(1, 64) * 1_000_000_000 }, slashed: rng.chance(1, 5), activation_eligibility_epoch: if act == FAR { *rng.pick(&[FAR, t, 0]) } else { 0 }, activation_epoch: act, exit_epoch: exit, withdrawable_epoch: FAR }
}
fn beacon(rng: &mut Rng, spec: &ChainSpec, slot: u64, gvr: B256, validators: Vec<Validator>, mixes: usize) -> State {
    let f = oracle_fork(spec, slot / SPE);
    State { leaves: (0..37).map(|_| rng.chunk()).collect(), slot, genesis_validators_root: gvr, fork: EcFork { previous_version: f.1, current_version: f.2, epoch: f.3 },
        latest_block_header: BeaconBlockHeader { slot, proposer_index: rng.below(9) as usize, parent_root: rng.chunk().into(), state_root: B256::ZERO, body_root: rng.chunk().into() },
        validators: validators.into(), randao_mixes: { let few = rng.chance(1, 4); (0..mixes).map(|_| Bytes32(if few && rng.chance(1, 3) { vec![0; 32] } else { rng.chunk().to_vec() })).collect() }, finalized: EcCheckpoint { epoch: (slot / SPE).saturating_sub(2), root: rng.chunk().into() }, earliest_exit_epoch: slot / SPE + 5, earliest_consolidation_epoch: slot / SPE + 5 }
}
fn wrap(rng: &mut Rng, s: State) -> StateRef { Arc::new(if rng.bool() { BeaconState::Electra(s) } else { BeaconState::Fulu(s) }) }

pub fn c26(rng: &mut Rng, _case: u64) -> Case {
    let t = rng.below(100);
    let spec = spec(rng, t);
    let n = rng.below(7);
    let old: Vec<Validator> = (0..n).map(|i| validator(rng, i, t)).collect();
    let mut new: Vec<Validator> = old.clone();
    for v in new.iter_mut() {
        match rng.below(7) { 0 => v.exit_epoch = t + rng.below(9), 1 => v.exit_epoch = FAR, 2 => v.exit_epoch = 0, 3 => v.withdrawable_epoch = 7, 4 => v.effective_balance += 1, 5 => v.activation_epoch = 3, _ => {} }
    }
    match rng.below(4) { 0 => { new.push(validator(rng, n, t)); } 1 => { new.pop(); } _ => {} }
    let mixes = rng.range(1, 70) as usize;
    let slot = (t + 3) * SPE;
    let st = beacon(rng, &spec, slot, B256::ZERO, new.clone(), mixes);
    let table: Vec<Chunk> = st.randao_mixes.iter().map(|m| m.0.clone().try_into().unwrap()).collect();
    let mut b = StatePatchBuilder::new(wrap(rng, st));
    let mut want_m: BTreeMap<u32, Chunk> = BTreeMap::new();
    let mut diffed = false;
    for _ in 0..rng.below(6) {
        if rng.chance(1, 3) { b.validator_diff(old.iter()); diffed = true; continue; }
        let i = match rng.below(5) { 0 => mixes as u32, 1 => mixes as u32 - 1, 2 => rng.u64() as u32, _ => rng.below(mixes as u64) as u32 };
        let r = guard(|| b.randao_mix(i));
        let Ok(r) = r else { return Err(format!("randao_mix({i}) panics with {mixes} mixes")) };
        check!(r.is_ok() == ((i as usize) < mixes), "randao_mix({i}) with {mixes} mixes: {}", if r.is_ok() { "accepted" } else { "refused" });
        if (i as usize) < mixes { want_m.insert(i, table[i as usize]); }
    }
    let want_x: BTreeMap<usize, u64> = if diffed { old.iter().zip(&new).enumerate().filter(|(_, (a, b))| a.exit_epoch != b.exit_epoch).map(|(i, (_, b))| (i, b.exit_epoch)).collect() } else { BTreeMap::new() };
    let p = b.build::<E>();
    let got_m: BTreeMap<u32, Chunk> = p.randao_mixes.iter().map(|(i, c)| (*i, c.0)).collect();
    let got_x: BTreeMap<usize, u64> = p.validator_exits.iter().map(|(i, e)| (*i, e.as_u64())).collect();
    check!(got_m == want_m, "mixes {:?} instead of {:?}", got_m.keys().collect::<Vec<_>>(), want_m.keys().collect::<Vec<_>>());
    check!(got_x == want_x, "exits {got_x:?} instead of {want_x:?}; trusted {:?}, state {:?}", old.iter().map(|v| v.exit_epoch).collect::<Vec<_>>(), new.iter().map(|v| v.exit_epoch).collect::<Vec<_>>());
    Ok(if want_x.is_empty() && want_m.is_empty() { String::new() } else { format!("{} exits {} mixes", want_x.len().min(3), want_m.len().min(3)) })
}

// --------------------------------------------------------------------------------------------- readers
struct World { spec: ChainSpec, node: Node, states: States, trusted: Cp, trusted_state: State, start: St, atts: Vec<Attestation<E>>, gvr: B256, headers: Vec<BeaconBlockHeader> }
fn world(rng: &mut Rng) -> Option<World> {
    let mut c = chain(rng, false);
    let Ok((start, _)) = c.want.clone() else { return None };
    let t = c.trusted.0;
    if t > 1 << 30 { return None; }
    let spec = spec(rng, t);
    let gvr: B256 = rng.chunk().into();
    // the block of the trusted checkpoint may be older than the epoch's first slot
    let slot = if t > 0 && rng.chance(1, 3) { t * SPE - rng.range(1, 5) } else { t * SPE };
    let n = rng.below(7);
    let mut vs: Vec<Validator> = (0..n).map(|i| validator(rng, i, t)).collect();
    for v in vs.iter_mut() { if v.activation_epoch > t { v.activation_epoch = FAR; v.activation_eligibility_epoch = FAR; v.effective_balance = 1; } }
    let ts = beacon(rng, &spec, slot, gvr, vs.clone(), 64);
    let mut header = ts.latest_block_header.clone();
    header.state_root = ts.hash_tree_root().unwrap();
    let root = header.hash_tree_root().unwrap();
    let mut by_slot = BTreeMap::new();
    by_slot.insert(slot, wrap(rng, ts.clone()));
    if slot != t * SPE { let mut s = ts.clone(); s.slot = t * SPE; s.latest_block_header = header.clone(); s.randao_mixes = (0..64).map(|_| Bytes32(rng.chunk().to_vec())).collect(); by_slot.insert(t * SPE, wrap(rng, s)); }
    if !by_slot.contains_key(&0) { let v = (0..2).map(|i| validator(rng, i, 0)).collect(); let mut s = beacon(rng, &spec, 0, gvr, v, 64); s.finalized.epoch = 0; by_slot.insert(0, wrap(rng, s)); }
    // later states: exits are announced and balances move
    let mut cur = vs;
    let odd = rng.chance(1, 6);
    let earliest = t + 1 + spec.max_seed_lookahead.as_u64();
    for e in t + 1..t + 8 {
        for v in cur.iter_mut() {
            if v.exit_epoch == FAR && rng.chance(1, 6) { v.exit_epoch = earliest.max(slot / SPE + 5) + rng.range(1, 3); }
            if rng.chance(1, 4) { v.effective_balance += 1_000_000_000; }
            if odd && rng.chance(1, 6) { v.exit_epoch = if rng.bool() { FAR } else { v.exit_epoch.saturating_sub(rng.below(4)) }; }
        }
        if rng.chance(1, 4) { let i = cur.len() as u64; let mut v = validator(rng, i, t); v.activation_epoch = FAR; v.exit_epoch = FAR; cur.push(v); }
        let mut s = beacon(rng, &spec, e * SPE, gvr, cur.clone(), 64);
        if rng.chance(1, 3) { // no block at the first slot: the state of the last block is another one
            let last = e * SPE - rng.range(1, 5);
            let vs = cur.iter().map(|v| { let mut v = v.clone(); if rng.bool() { v.exit_epoch = FAR; } if rng.chance(1, 3) { v.activation_epoch = FAR; } v }).collect();
            let before = beacon(rng, &spec, last, gvr, vs, 64);
            s.latest_block_header = before.latest_block_header.clone();
            s.latest_block_header.state_root = before.hash_tree_root().unwrap();
            by_slot.insert(last, wrap(rng, before));
        }
        by_slot.insert(e * SPE, wrap(rng, s));
    }
    let trusted: Cp = (t, root.0);
    // the chain with the real root of the trusted block
    let swap = |c: &mut Cp, old: Cp| if *c == old { *c = trusted };
    let old = c.trusted;
    for s in c.node.states.values_mut() { swap(&mut s.0, old); swap(&mut s.1, old); }
    for l in c.links.iter_mut() { swap(&mut l.0, old); swap(&mut l.1, old); }
    let mut start = start; swap(&mut start.0, old); swap(&mut start.1, old);
    c.trusted = trusted;
    let atts = blocks(rng, &mut c, false).ok()?;
    let headers: Vec<BeaconBlockHeader> = (0..3).map(|_| BeaconBlockHeader { slot: rng.corner(), proposer_index: 1, parent_root: rng.chunk().into(), state_root: rng.chunk().into(), body_root: rng.chunk().into() }).collect();
    for h in &headers { c.node.headers.insert(h.hash_tree_root().unwrap().to_string(), h.clone()); }
    Some(World { spec, node: c.node, states: States { by_slot, asked: RefCell::new(vec![]) }, trusted, trusted_state: ts, start, atts, gvr, headers })
}
fn raw(s: &StateRef) -> &State { match &**s { BeaconState::Deneb(s) | BeaconState::Electra(s) | BeaconState::Fulu(s) => s } }
fn info(v: &Validator) -> ValidatorInfo { ValidatorInfo { pubkey: bls::PublicKey::deserialize(&v.public_key.0).unwrap(), effective_balance: v.effective_balance, slashed: v.slashed, activation_eligibility_epoch: Epoch::new(v.activation_eligibility_epoch), activation_epoch: Epoch::new(v.activation_epoch), exit_epoch: Epoch::new(v.exit_epoch) } }
fn active(s: &State, e: u64) -> Vec<(usize, ValidatorInfo)> { s.validators.iter().enumerate().filter(|(_, v)| v.activation_epoch <= e && e < v.exit_epoch).map(|(i, v)| (i, info(v))).collect() }
fn show_v(v: &[(usize, ValidatorInfo)]) -> String { v.iter().map(|(i, v)| format!("{i}: balance {} slashed {} epochs {}/{}/{}", v.effective_balance, v.slashed, v.activation_eligibility_epoch, v.activation_epoch, v.exit_epoch)).collect::<Vec<_>>().join("; ") }

/// The host reader's answers come from the states and the node.
pub fn c28(rng: &mut Rng, _case: u64) -> Case {
    let Some(w) = world(rng) else { return Ok(String::new()) };
    let t = w.trusted.0;
    let cached = CacheStateProvider::new(&w.states);
    let r = match guard(|| block_on(HostInputReader::<E, _, _>::new(w.spec.clone(), cached, &w.node, cp(w.trusted)))) { Ok(Ok(r)) => r, Ok(Err(e)) => return Err(format!("refused: {e}")), Err(e) => return Err(format!("panics: {e}")) };
    check!(r.chain_spec() == &w.spec, "chain spec differs");
    check!(unst(&r.consensus_state().unwrap()) == w.start, "start state differs");
    for _ in 0..24 {
        let e = t + rng.below(9);
        let st = w.states.by_slot.get(&(e * SPE));
        match rng.below(7) {
            0 => { let g = guard(|| r.fork(Epoch::new(e)).ok().map(|f| (f.previous_version, f.current_version, f.epoch.as_u64()))); let want = st.map(|s| { let f = &raw(s).fork; (f.previous_version, f.current_version, f.epoch) }); check!(g == Ok(want), "fork of epoch {e}: {g:?} instead of {want:?}"); }
            1 | 2 => {
                let g = guard(|| r.active_validators(Epoch::new(e)).ok().map(|i| i.map(|(i, v)| (i, v.clone())).collect::<Vec<_>>()));
                let want = st.map(|s| active(raw(s), e));
                check!(g == Ok(want.clone()), "active validators of epoch {e}: {} instead of {}", g.map(|g| g.map_or("an error".into(), |g| show_v(&g))).unwrap_or("a panic".into()), want.map_or("an error".into(), |g| show_v(&g)));
            }
            3 => { let i = if rng.chance(1, 5) { rng.range(63, 65) } else { rng.below(64) }; let g = guard(|| r.randao_mix(Epoch::new(e), i as u32).ok().map(|m| m.map(|m| m.0.to_vec()))); let want = st.map(|s| raw(s).randao_mixes.get(i as usize).map(|m| m.0.clone())); check!(g == Ok(want), "mix {i} of epoch {e} differs"); }
            4 => { let h = rng.pick(&w.headers); let root = h.hash_tree_root().unwrap(); let g = guard(|| r.slot_for_block(&root).ok()); check!(g == Ok(Some(h.slot)), "slot of {root}: {g:?} instead of {}", h.slot); let bad: B256 = if rng.chance(1, 4) { B256::ZERO } else { rng.chunk().into() }; let g = guard(|| r.slot_for_block(&bad).ok()); check!(g == Ok(None), "slot of an unknown block: {g:?}"); }
            5 => { let g = guard(|| InputReader::genesis_validators_root(&r).ok()); check!(g == Ok(Some(w.gvr)), "genesis validators root {g:?} instead of {}", w.gvr); }
            _ => {
                let g = guard(|| r.state_at_checkpoint(cp(w.trusted)).ok().map(|s| s.hash_tree_root().unwrap()));
                let want = w.trusted_state.hash_tree_root().unwrap();
                check!(g == Ok(Some(want)), "state of the trusted checkpoint: {g:?} instead of {want}");
                let mut c = w.trusted; if rng.bool() { c.1 = rng.chunk() } else { c.0 += rng.range(1, 3) };
                let g = guard(|| r.state_at_checkpoint(cp(c)).ok().map(|s| s.hash_tree_root().unwrap()));
                check!(g == Ok(None), "a state for a checkpoint that is not one: {g:?}");
            }
        }
    }
    Ok("answers".into())
}

fn vals(p: &ssz_multiproofs::Multiproof<'_>) -> Vec<(u64, Chunk)> { p.values().map(|v| (v.0, *v.1)).collect() }
/// What preflight read is in the guest input.
pub fn c27(rng: &mut Rng, _case: u64) -> Case {
    let Some(w) = world(rng) else { return Ok(String::new()) };
    let t = w.trusted.0;
    let r = match guard(|| block_on(HostInputReader::<E, _, _>::new(w.spec.clone(), CacheStateProvider::new(&w.states), &w.node, cp(w.trusted)))) { Ok(Ok(r)) => r, _ => return Ok(String::new()) };
    let pre = PreflightInputReader::new(&r, &w.node, cp(w.trusted));
    let mut acts: BTreeSet<u64> = BTreeSet::new();
    let mut mixes: BTreeMap<u64, BTreeSet<u32>> = BTreeMap::new();
    let mut slots: BTreeMap<B256, u64> = BTreeMap::new();
    for _ in 0..rng.below(12) {
        let e = t + rng.below(8);
        let st = &w.states.by_slot[&(e * SPE)];
        match rng.below(4) {
            0 | 1 => {
                let g = guard(|| pre.active_validators(Epoch::new(e)).ok().map(|i| i.map(|(i, v)| (i, v.clone())).collect::<Vec<_>>()));
                check!(g == Ok(Some(active(raw(st), e))), "preflight's active validators of epoch {e} are not the host's");
                acts.insert(e);
            }
            2 => { let i = rng.below(64) as u32; let g = guard(|| pre.randao_mix(Epoch::new(e), i).ok().flatten().map(|m| m.0.to_vec())); check!(g == Ok(Some(raw(st).randao_mixes[i as usize].0.clone())), "preflight's mix {i} of epoch {e} is not the host's"); mixes.entry(e).or_default().insert(i); }
            _ => { let h = rng.pick(&w.headers); let root = h.hash_tree_root().unwrap(); let g = guard(|| pre.slot_for_block(&root).ok()); check!(g == Ok(Some(h.slot)), "preflight's slot of {root}: {g:?}"); slots.insert(root, h.slot); }
        }
    }
    // the node may later name another header for a root
    let spoiled = if !slots.is_empty() && rng.chance(1, 8) { Some(*rng.pick(&slots.keys().copied().collect::<Vec<_>>())) } else { None };
    if let Some(root) = spoiled { let k = root.to_string(); let mut h = w.node.headers[&k].clone(); if rng.bool() { h.slot ^= 1 } else { h.body_root = rng.chunk().into() }; w.node.lies.borrow_mut().insert(k, h); }
    let mut got = guard(|| pre.to_input());
    w.node.lies.borrow_mut().clear();
    let mut again = rng.chance(1, 4);
    if let Some(root) = spoiled {
        check!(!matches!(got, Ok(Ok(_))), "an input although the header the node gives for {root} has another root");
        if !again { return Ok("no input".into()); }
    }
    // asked again, after an error or not: the same queries were made
    if again && rng.bool() && !mixes.is_empty() { let (e, i) = (t + rng.below(8), rng.below(64) as u32); if guard(|| pre.randao_mix(Epoch::new(e), i).is_ok()) == Ok(true) { mixes.entry(e).or_default().insert(i); } }
    while again { again = rng.chance(1, 4); got = guard(|| pre.to_input()); }
    let inp = match got { Ok(Ok(i)) => i, Ok(Err(e)) => return Err(format!("no input: {e}")), Err(e) => return Err(format!("to_input panics: {e}")) };
    // patches
    let mut want: BTreeMap<u64, (BTreeMap<u32, Vec<u8>>, BTreeMap<usize, u64>)> = BTreeMap::new();
    for (e, is) in &mixes { let s = raw(&w.states.by_slot[&(e * SPE)]); want.entry(*e).or_default().0.extend(is.iter().map(|i| (*i, s.randao_mixes[*i as usize].0.clone()))); }
    for e in &acts { if *e != t { let s = raw(&w.states.by_slot[&(e * SPE)]); want.entry(*e).or_default().1.extend(s.validators.iter().zip(w.trusted_state.validators.iter()).enumerate().filter(|(_, (a, b))| a.exit_epoch != b.exit_epoch).map(|(i, (a, _))| (i, a.exit_epoch))); } }
    let got: BTreeMap<u64, (BTreeMap<u32, Vec<u8>>, BTreeMap<usize, u64>)> = inp.patches.iter().map(|(e, p)| (e.as_u64(), (p.randao_mixes.iter().map(|(i, m)| (*i, m.0.to_vec())).collect(), p.validator_exits.iter().map(|(i, x)| (*i, x.as_u64())).collect()))).collect();
    check!(got == want, "patches {:?} instead of {:?}", got.iter().map(|(e, p)| (e, p.0.keys().collect::<Vec<_>>(), &p.1)).collect::<Vec<_>>(), want.iter().map(|(e, p)| (e, p.0.keys().collect::<Vec<_>>(), &p.1)).collect::<Vec<_>>());
    check!(unst(&inp.consensus_state) == w.start, "start state {} instead of {}", show_st(&unst(&inp.consensus_state)), show_st(&w.start));
    check!(inp.attestations == w.atts, "attestations [{}] instead of [{}]", brief(&inp.attestations), brief(&w.atts));
    let keys: Vec<_> = w.trusted_state.validators.iter().filter(|v| t < v.exit_epoch).map(|v| info(v).pubkey).collect();
    check!(inp.public_keys == keys, "public keys {:?} instead of {:?}", inp.public_keys, keys);
    // proofs
    check!(inp.beacon_block.calculate_root().ok() == Some(w.trusted.1), "block proof has another root");
    check!(vals(&inp.beacon_block).iter().map(|v| v.0).collect::<Vec<_>>() == [11], "block proof proves {:?}", vals(&inp.beacon_block));
    check!(inp.beacon_state.calculate_root().ok() == w.trusted_state.hash_tree_root().ok().map(|r| r.0), "state proof has another root");
    check!(vals(&inp.beacon_state).iter().map(|v| v.0).collect::<Vec<_>>() == [65, 66, 268, 269, 270, 75, 168, 95, 97], "state proof proves {:?}", vals(&inp.beacon_state).iter().map(|v| v.0).collect::<Vec<_>>());
    check!(inp.active_validators.calculate_root().ok() == w.trusted_state.validators.hash_tree_root().ok().map(|r| r.0), "validators proof has another root");
    let mut gs: Vec<u64> = vec![];
    for (i, v) in w.trusted_state.validators.iter().enumerate() { let b = (1u64 << 41) + i as u64; if t < v.exit_epoch { gs.extend([b * 16, b * 16 + 1, b * 8 + 2, b * 8 + 3, b * 8 + 4, b * 8 + 5]); } gs.push(b * 8 + 6); }
    gs.push(3);
    check!(vals(&inp.active_validators).iter().map(|v| v.0).collect::<Vec<_>>() == gs, "validators proof proves other fields");
    let mut got: BTreeMap<B256, u64> = BTreeMap::new();
    for p in &inp.block_slot_proofs { let v = vals(p); check!(v.len() == 1 && v[0].0 == 8, "slot proof proves {v:?}"); got.insert(p.calculate_root().unwrap().into(), u64::from_le_bytes(v[0].1[..8].try_into().unwrap())); }
    check!(got == slots && inp.block_slot_proofs.len() == slots.len(), "slot proofs {got:?} instead of {slots:?}");
    // the guest's answers
    let Ok(Ok(g)) = guard(|| inp.into_reader(w.spec.clone())) else { return Ok("refused by the guest".into()) };
    let guest_sees = |e: u64| g.active_validators(Epoch::new(e)).unwrap().map(|(i, v)| (i, v.pubkey.clone())).collect::<Vec<_>>();
    for e in &acts { let a: Vec<_> = active(raw(&w.states.by_slot[&(e * SPE)]), *e).into_iter().map(|(i, v)| (i, v.pubkey)).collect(); check!(guest_sees(*e) == a, "guest's active validators of epoch {e}: {:?} instead of {:?}", guest_sees(*e), a); }
    for (e, is) in &mixes { for i in is { let m = g.randao_mix(Epoch::new(*e), *i).unwrap(); check!(m.map(|m| m.0.to_vec()).as_ref() == Some(&raw(&w.states.by_slot[&(e * SPE)]).randao_mixes[*i as usize].0), "guest's mix {i} of epoch {e}"); } }
    for (r, s) in &slots { check!(g.slot_for_block(r).ok() == Some(*s), "guest's slot of {r}"); }
    Ok("accepted by the guest".into())
}
