//! C08-C14: committees, attestations, and whole verification runs against an independent oracle.
use crate::check;
use crate::common::*;
use crate::cs::{apply, cp, show_cp, show_st, state, total, unst, valid, Cp, St};
use alloy_primitives::{aliases::B32, B256};
use beacon_types::{Attestation, AttestationBase, AttestationData, AttestationElectra, BitList, Fork, ForkName};
use bls::{AggregateSignature, PublicKey, SecretKey};
use safe_arith::ArithError;
use std::collections::{BTreeMap, BTreeSet};
use swap_or_not_shuffle::compute_shuffled_index;
use z_core::{ChainSpec, Config, ConsensusState, Epoch, EthSpec, InputReader, Root, Slot, ValidatorInfo};

pub fn key(k: u64) -> PublicKey { let mut b = [0u8; 48]; b[..32].copy_from_slice(&sha(&[b"key", &k.to_le_bytes()])); b[40..48].copy_from_slice(&k.to_be_bytes()); SecretKey::from_bytes(b).public_key() }

// --------------------------------------------------------------------------------------------- oracle
/// What a verification run can see.
pub trait View<E: EthSpec> {
    fn spec(&self) -> &ChainSpec;
    fn start(&self) -> St;
    fn atts(&self) -> &[Attestation<E>];
    /// active validators of an epoch, None if the query fails
    fn active(&self, epoch: u64) -> Option<BTreeMap<usize, ValidatorInfo>>;
    fn mix(&self, epoch: u64, idx: u32) -> Option<Chunk>;
    fn slot(&self, root: &Chunk) -> Option<u64>;
    fn gvr(&self) -> Chunk;
    /// queries that fail: 1 genesis validators root, 2 fork, 4 mixes
    fn broken(&self) -> u8 { 0 }
}
pub fn oracle_fork(spec: &ChainSpec, epoch: u64) -> (ForkName, [u8; 4], [u8; 4], u64) {
    let i = spec.forks.iter().rposition(|f| f.2.as_u64() <= epoch).unwrap_or(0);
    (spec.forks[i].0, spec.forks[i.saturating_sub(1)].1, spec.forks[i].1, spec.forks[i].2.as_u64())
}
pub fn oracle_seed<E: EthSpec>(v: &dyn View<E>, epoch: u64, domain: u32) -> Option<Chunk> {
    let n = E::epochs_per_historical_vector() as u64;
    let at = epoch.checked_add(n)?.checked_sub(v.spec().min_seed_lookahead.as_u64())?.checked_sub(1)?;
    let mix = v.mix(epoch, (at % n) as u32)?;
    Some(sha(&[&domain.to_le_bytes(), &epoch.to_le_bytes(), &mix]))
}
/// All committees of an epoch, in order; committee i of a slot is at slot_in_epoch * per_slot + i.
#[allow(dead_code)]
pub struct Committees { pub per_slot: usize, pub shuffled: Vec<usize>, pub list: Vec<Vec<usize>> }
pub fn oracle_committees(active: &[usize], seed: &Chunk, rounds: u8, per_slot: usize, slots: u64) -> Option<Committees> {
    if per_slot == 0 || active.is_empty() || rounds == 0 { return None; }
    let n = active.len();
    let shuffled: Vec<usize> = (0..n).map(|i| active[compute_shuffled_index(i, n, seed, rounds).unwrap()]).collect();
    let count = per_slot * slots as usize;
    let list = (0..count).map(|k| shuffled[n * k / count..n * (k + 1) / count].to_vec()).collect();
    Some(Committees { per_slot, shuffled, list })
}
pub fn oracle_per_slot<E: EthSpec>(spec: &ChainSpec, n: usize) -> Option<usize> {
    if spec.target_committee_size == 0 { return None; }
    Some((n / E::slots_per_epoch() as usize / spec.target_committee_size).min(spec.max_committees_per_slot).max(1))
}
pub fn oracle_attesters(c: &Committees, slot_in_epoch: u64, committee_bits: &[bool], agg: &[bool]) -> Option<BTreeSet<usize>> {
    let mut out = BTreeSet::new();
    let mut pos = 0;
    for (i, _) in committee_bits.iter().enumerate().filter(|x| *x.1) {
        if i >= c.per_slot { return None; }
        let com = &c.list[slot_in_epoch as usize * c.per_slot + i];
        let mut some = false;
        for v in com {
            if *agg.get(pos)? { out.insert(*v); some = true; }
            pos += 1;
        }
        if !some { return None; }
    }
    (pos == agg.len()).then_some(out)
}
/// The signing root, from the consensus specification.
pub fn signing_root(spec: &ChainSpec, gvr: &Chunk, d: &AttestationData) -> Chunk {
    let z = [0u8; 32];
    let c = |c: &beacon_types::Checkpoint| h2(&chunk_u64(c.epoch.as_u64()), &c.root.0);
    let obj = h2(&h2(&h2(&chunk_u64(d.slot.as_u64()), &chunk_u64(d.index)), &h2(&d.beacon_block_root.0, &c(&d.source))), &h2(&h2(&c(&d.target), &z), &h2(&z, &z)));
    let (_, prev, cur, at) = oracle_fork(spec, d.target.epoch.as_u64());
    let ver = if d.target.epoch.as_u64() < at { prev } else { cur };
    let mut v = z; v[..4].copy_from_slice(&ver);
    let fd = h2(&v, gvr);
    let mut dom = z;
    dom[..4].copy_from_slice(&1u32.to_le_bytes());
    dom[4..].copy_from_slice(&fd[..28]);
    h2(&obj, &dom)
}
/// `Err(why)` is a rejection.
pub fn oracle_verify<E: EthSpec>(cfg: &Config, v: &dyn View<E>) -> Result<(St, u64), String> {
    let spec = v.spec();
    let mut st = v.start();
    let trusted = st.1;
    let atts = v.atts();
    let mut i = 0;
    while i < atts.len() {
        if st.1 != trusted { return Err("attestations after the new finalization".into()); }
        let d = atts[i].data();
        let (s, t) = ((d.source.epoch.as_u64(), d.source.root.0), (d.target.epoch.as_u64(), d.target.root.0));
        let mut j = i;
        while j < atts.len() && atts[j].data().source == d.source && atts[j].data().target == d.target { j += 1; }
        let fork = oracle_fork(spec, t.0).0;
        if !(cfg.min_version <= fork && fork <= cfg.max_version) { return Err(format!("fork {fork}")); }
        if t.0 as i128 - trusted.0 as i128 > cfg.epoch_lookahead_limit.as_u64() as i128 { return Err("look-ahead".into()); }
        let active = v.active(t.0).ok_or("active validators")?;
        if v.broken() & 4 != 0 { return Err("mix query".into()); }
        let seed = oracle_seed(v, t.0, 1).ok_or("seed")?;
        let idx: Vec<usize> = active.keys().copied().collect();
        let per_slot = oracle_per_slot::<E>(spec, idx.len()).ok_or("committee count")?;
        let com = oracle_committees(&idx, &seed, spec.shuffle_round_count, per_slot, E::slots_per_epoch()).ok_or("committees")?;
        let mut part = BTreeSet::new();
        for a in &atts[i..j] {
            let Attestation::Electra(a) = a else { return Err("attestation format".into()) };
            let slot = a.data.slot.as_u64();
            if slot / E::slots_per_epoch() != t.0 { return Err("attestation slot".into()); }
            if a.data.index != 0 { return Err("committee index".into()); }
            let who = oracle_attesters(&com, slot % E::slots_per_epoch(), &a.committee_bits.0, &a.aggregation_bits.0).ok_or("bits")?;
            if who.is_empty() { return Err("no attesters".into()); }
            if v.broken() != 0 { return Err("domain query".into()); }
            let root = B256::from(signing_root(spec, &v.gvr(), &a.data));
            let mut want: Vec<(B256, PublicKey)> = who.iter().map(|k| (root, active[k].pubkey.clone())).collect();
            want.sort();
            if want != a.signature.shares { return Err("signature".into()); }
            part.extend(who);
        }
        let bal = total(spec, part.iter().map(|k| &active[k]).filter(|x| !x.slashed).map(|x| x.effective_balance)).ok_or("attesting balance overflow")?;
        let all = total(spec, active.values().map(|x| x.effective_balance)).ok_or("total balance overflow")?;
        // products of two 64-bit numbers, exactly
        if (bal as u128) * (cfg.justification_threshold_quotient as u128) < (all as u128) * (cfg.justification_threshold_factor as u128) { return Err(format!("threshold {bal} of {all}")); }
        if bal > u64::MAX / 3 || all > u64::MAX / 2 { return Err("balance too large".into()); }
        if (bal as u128) * 3 < (all as u128) * 2 { return Err("two thirds".into()); }
        st = apply(&st, &s, &t).ok_or("transition")?;
        i = j;
    }
    if st.1 == trusted { return Err("no finalization".into()); }
    let slot = v.slot(&st.1.1).ok_or("no slot")?;
    Ok((st, slot))
}
/// Run the real verification on a reader and compare.
pub fn compare<E: EthSpec, R: InputReader<Spec = E>>(cfg: &Config, v: &dyn View<E>, r: &R, show: impl Fn() -> String) -> Case {
    let want = oracle_verify(cfg, v);
    let got = guard(|| z_core::verify(cfg, r));
    match (&got, &want) {
        (Ok(Ok((s, slot))), Ok((w, ws))) => {
            check!(unst(s) == *w && slot == ws, "verify gave {} slot {slot} instead of {} slot {ws}; {}", show_st(&unst(s)), show_st(w), show());
            Ok("accepted".into())
        }
        (Ok(Ok((s, slot))), Err(why)) => Err(format!("verify accepted an input that must be refused ({why}), giving {} slot {slot}; {}", show_st(&unst(s)), show())),
        (g, Ok((w, _))) => Err(format!("verify refused ({:?}) an input that must give {}; {}", g.as_ref().map(|r| r.as_ref().err().map(|e| e.to_string())), show_st(w), show())),
        (_, Err(why)) => Ok(format!("refused:{}", why.split(' ').next().unwrap())),
    }
}

// --------------------------------------------------------------------------------------------- an in-memory input
#[derive(Debug)]
pub struct MemError(pub &'static str);
impl std::fmt::Display for MemError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) } }
impl std::error::Error for MemError {}
impl From<ArithError> for MemError { fn from(_: ArithError) -> Self { MemError("arith") } }

#[derive(Clone)]
pub struct Mem<E: EthSpec> {
    pub spec: ChainSpec,
    pub start: St,
    pub atts: Vec<Attestation<E>>,
    pub active: BTreeMap<u64, BTreeMap<usize, ValidatorInfo>>,
    pub mixes: BTreeMap<(u64, u32), Chunk>,
    pub slots: BTreeMap<Chunk, u64>,
    pub gvr: Chunk,
    pub broken: u8,
}
impl<E: EthSpec> View<E> for Mem<E> {
    fn spec(&self) -> &ChainSpec { &self.spec }
    fn start(&self) -> St { self.start }
    fn atts(&self) -> &[Attestation<E>] { &self.atts }
    fn active(&self, epoch: u64) -> Option<BTreeMap<usize, ValidatorInfo>> { self.active.get(&epoch).cloned() }
    fn mix(&self, epoch: u64, idx: u32) -> Option<Chunk> { self.mixes.get(&(epoch, idx)).copied() }
    fn slot(&self, root: &Chunk) -> Option<u64> { self.slots.get(root).copied() }
    fn gvr(&self) -> Chunk { self.gvr }
    fn broken(&self) -> u8 { self.broken }
}
impl<E: EthSpec> InputReader for Mem<E> {
    type Error = MemError;
    type Spec = E;
    fn chain_spec(&self) -> &ChainSpec { &self.spec }
    fn genesis_validators_root(&self) -> Result<Root, MemError> { if self.broken & 1 != 0 { return Err(MemError("root")); } Ok(self.gvr.into()) }
    fn fork(&self, epoch: Epoch) -> Result<Fork, MemError> { if self.broken & 2 != 0 { return Err(MemError("fork")); } let (_, p, c, e) = oracle_fork(&self.spec, epoch.as_u64()); Ok(Fork { previous_version: p, current_version: c, epoch: Epoch::new(e) }) }
    fn active_validators(&self, epoch: Epoch) -> Result<impl Iterator<Item = (usize, &ValidatorInfo)>, MemError> {
        Ok(self.active.get(&epoch.as_u64()).ok_or(MemError("epoch"))?.iter().map(|(i, v)| (*i, v)))
    }
    fn randao_mix(&self, epoch: Epoch, idx: u32) -> Result<Option<B256>, MemError> { if self.broken & 4 != 0 { return Err(MemError("mix")); } Ok(self.mixes.get(&(epoch.as_u64(), idx)).map(|c| B256::from(*c))) }
    fn attestations(&self) -> Result<impl Iterator<Item = &Attestation<E>>, MemError> { Ok(self.atts.iter()) }
    fn consensus_state(&self) -> Result<ConsensusState, MemError> { Ok(state(self.start)) }
    fn slot_for_block(&self, root: &Root) -> Result<u64, MemError> { self.slots.get(&root.0).copied().ok_or(MemError("slot")) }
}

// --------------------------------------------------------------------------------------------- scenarios
pub fn small_spec(rng: &mut Rng) -> ChainSpec {
    let mut s = ChainSpec::mainnet();
    s.shuffle_round_count = rng.range(1, 6) as u8;
    s.target_committee_size = rng.range(1, 4) as usize;
    s.max_committees_per_slot = *rng.pick(&[1, 2, 4, 64]);
    s.min_seed_lookahead = Epoch::new(*rng.pick(&[1, 1, 1, 0, 2]));
    s.effective_balance_increment = *rng.pick(&[1, 1, 1_000_000_000]);
    s
}
pub fn att<E: EthSpec>(data: AttestationData, committee_bits: Vec<bool>, agg: Vec<bool>, signature: AggregateSignature) -> Attestation<E> {
    Attestation::Electra(AttestationElectra { aggregation_bits: BitList(agg), data, signature, committee_bits: BitList(committee_bits), _p: std::marker::PhantomData })
}
/// Attestations of exactly `who` for a link; every committee with somebody in `who` appears `copies`-fold at random.
pub fn attest<E: EthSpec>(rng: &mut Rng, v: &dyn View<E>, source: Cp, target: Cp, who: &BTreeSet<usize>) -> Vec<Attestation<E>> {
    let Some(active) = v.active(target.0) else { return vec![] };
    let Some(seed) = oracle_seed(v, target.0, 1) else { return vec![] };
    let idx: Vec<usize> = active.keys().copied().collect();
    let Some(per_slot) = oracle_per_slot::<E>(v.spec(), idx.len()) else { return vec![] };
    let Some(com) = oracle_committees(&idx, &seed, v.spec().shuffle_round_count, per_slot, E::slots_per_epoch()) else { return vec![] };
    let mut out = vec![];
    for s in 0..E::slots_per_epoch() {
        let full: Vec<usize> = (0..per_slot).filter(|i| com.list[s as usize * per_slot + i].iter().any(|x| who.contains(x))).collect();
        let mut parts: Vec<Vec<usize>> = match rng.below(3) { 0 => full.iter().map(|i| vec![*i]).collect(), _ => vec![full.clone()] };
        if rng.chance(1, 6) && !full.is_empty() { let k = *rng.pick(&full); parts.push(vec![k]); }
        for (pn, sel) in parts.into_iter().filter(|p| !p.is_empty()).enumerate() {
            let Some(slot) = target.0.checked_mul(E::slots_per_epoch()).and_then(|x| x.checked_add(s)) else { return out };
            let data = AttestationData { slot: Slot::new(slot), index: 0, beacon_block_root: if pn == 0 { [s as u8; 32].into() } else { rng.chunk().into() },
                source: cp(source).into(), target: cp(target).into() };
            let bits: Vec<bool> = (0..64).map(|i| sel.contains(&i)).collect();
            let mut members: Vec<usize> = sel.iter().flat_map(|i| com.list[s as usize * per_slot + i].clone()).collect();
            let mut agg: Vec<bool> = members.iter().map(|m| who.contains(m)).collect();
            // a second copy may cover only some of them, as long as every committee keeps one
            if pn > 0 && rng.bool() { let n = agg.len(); if agg.iter().filter(|b| **b).count() > 1 && sel.len() == 1 { let i = rng.below(n as u64) as usize; agg[i] = false; if !agg.contains(&true) { agg[i] = true; } } }
            members = members.into_iter().zip(&agg).filter(|x| *x.1).map(|x| x.0).collect();
            let root = B256::from(signing_root(v.spec(), &v.gvr(), &data));
            let mut sig = AggregateSignature::default();
            for m in &members { sig.sign(root, &active[m].pubkey); }
            out.push(att(data, bits, agg, sig));
        }
    }
    out
}
#[derive(Clone, Copy, PartialEq)]
pub enum Focus { Stake, Chain, Window, Signature, Bits, Seed }

fn balances(rng: &mut Rng, n: usize) -> Vec<u64> {
    match rng.below(7) {
        0 => vec![1; n],
        1 => (0..n).map(|_| rng.below(5)).collect(),
        2 => vec![32_000_000_000; n],
        3 => (0..n).map(|_| rng.range(1, 64) * 1_000_000_000).collect(),
        4 => (0..n).map(|_| u64::MAX / (n as u64) / *rng.pick(&[1, 2, 3, 4])).collect(),
        5 => (0..n).map(|i| if i == 0 { rng.corner() } else { rng.below(3) }).collect(),
        _ => (0..n).map(|_| rng.range(0, 1000)).collect(),
    }
}
/// the validators of one epoch
fn registry(rng: &mut Rng, n: usize) -> BTreeMap<usize, ValidatorInfo> {
    let bal = balances(rng, n);
    let mut i = rng.below(3) as usize;
    let slashed = *rng.pick(&[0u64, 0, 1, 3]);
    let shared = rng.chance(1, 10);
    bal.into_iter().map(|b| {
        let mut v = crate::cs::validator(if shared { i as u64 % 5 } else { i as u64 }, b);
        v.slashed = rng.chance(slashed, 8);
        let k = i;
        i += 1 + if rng.chance(1, 4) { rng.below(4) as usize } else { 0 };
        (k, v)
    }).collect()
}
/// who attests: often exactly at the threshold
fn attesters(rng: &mut Rng, cfg: &Config, active: &BTreeMap<usize, ValidatorInfo>, near: bool) -> BTreeSet<usize> {
    let mut ids: Vec<usize> = active.keys().copied().collect();
    rng.shuffle(&mut ids);
    if !near { return match rng.below(8) { 0 => ids.iter().copied().filter(|_| rng.bool()).collect(), _ => ids.into_iter().collect() }; }
    let all: u128 = active.values().map(|v| v.effective_balance as u128).sum();
    let need = |s: u128| s * cfg.justification_threshold_quotient as u128 >= all * cfg.justification_threshold_factor as u128 && s * 3 >= all * 2;
    let mut set = BTreeSet::new();
    let mut sum = 0u128;
    for i in ids {
        let v = &active[&i];
        let b = if v.slashed { 0 } else { v.effective_balance as u128 };
        if rng.chance(1, 10) { continue; }
        if need(sum) && b > 0 { if rng.chance(9, 10) { continue; } }
        // sometimes stop just short
        if need(sum + b) && !need(sum) && rng.chance(1, 3) { continue; }
        sum += b;
        set.insert(i);
    }
    set
}
fn config(rng: &mut Rng, f: Focus) -> Config {
    let mut c = if rng.bool() { z_core::DEFAULT_CONFIG.clone() } else { z_core::SEPOLIA_CONFIG.clone() };
    if f == Focus::Stake {
        match rng.below(8) {
            0 | 1 => { c.justification_threshold_factor = 2; c.justification_threshold_quotient = 3; }
            2 => { c.justification_threshold_factor = rng.range(2, 4); c.justification_threshold_quotient = 4; }
            3 => { c.justification_threshold_factor = u64::MAX - 1; c.justification_threshold_quotient = u64::MAX; }
            4 => { c.justification_threshold_factor = rng.corner(); c.justification_threshold_quotient = rng.corner(); }
            5 => { c.justification_threshold_factor = 1; c.justification_threshold_quotient = 2; }
            _ => {}
        }
    }
    if f != Focus::Window && rng.chance(4, 5) { c.epoch_lookahead_limit = Epoch::new(40); }
    if f == Focus::Window {
        c.epoch_lookahead_limit = Epoch::new(*rng.pick(&[0, 1, 2, 3, 4, 5, 6, 8, 8, u64::MAX, u64::MAX]));
        match rng.below(6) { 0 => c.min_version = ForkName::Deneb, 1 => c.max_version = ForkName::Electra, 2 => c.min_version = ForkName::Fulu, _ => {} }
    }
    c
}
pub fn scenario<E: EthSpec>(rng: &mut Rng, f: Focus) -> (Config, Mem<E>) {
    let cfg = config(rng, f);
    let mut spec = small_spec(rng);
    let rt = |rng: &mut Rng| rng.chunk();
    let base = match f { Focus::Window | Focus::Seed if rng.chance(1, 4) => *rng.pick(&[0u64, 1, (1 << 32) - 2, u64::MAX / E::slots_per_epoch() - 6, u64::MAX - 6, u64::MAX - 3]), _ => *rng.pick(&[0u64, 1, 5, 62, 64, 100, 65534, 65536, 411_400]) };
    let genesis = rng.chance(1, 12);
    let fin: Cp = if genesis { crate::cs::ZERO } else { (base, rt(rng)) };
    let jus: Cp = if genesis { crate::cs::ZERO } else { (base.saturating_add(rng.range(1, 3)).max(base.saturating_add(1)), rt(rng)) };
    // forks around the scenario
    let e0 = fin.0;
    let supported_from = if f == Focus::Window && rng.bool() { e0.saturating_add(rng.below(4)) } else { 0 };
    let mut forks = vec![(ForkName::Base, 0), (ForkName::Altair, 0), (ForkName::Bellatrix, 0), (ForkName::Capella, 0), (ForkName::Deneb, 0), (ForkName::Electra, supported_from), (ForkName::Fulu, e0.saturating_add(rng.below(8)).max(supported_from))];
    if f == Focus::Window { forks.push((ForkName::Gloas, e0.saturating_add(3 + rng.below(6)))); }
    forks.sort_by_key(|x| x.0);
    for i in 1..forks.len() { forks[i].1 = forks[i].1.max(forks[i - 1].1); }
    spec.forks = forks.into_iter().enumerate().map(|(i, (n, e))| (n, [i as u8, 9, 0, i as u8], Epoch::new(e))).collect();
    let mut m = Mem::<E> { spec, start: (jus, fin), atts: vec![], active: Default::default(), mixes: Default::default(), slots: Default::default(), gvr: rt(rng), broken: if rng.chance(1, 40) { 1 << rng.below(3) } else { 0 } };
    // what a failed query must not be replaced by
    if m.broken & 1 != 0 { m.gvr = [0; 32]; }
    if m.broken & 2 != 0 { for f in &mut m.spec.forks { f.1 = [0; 4]; } }

    if !valid(&m.start) { m.start = (crate::cs::ZERO, crate::cs::ZERO); }
    // links
    let mut cur = m.start.0;
    let mut links = vec![];
    let skips = match f { Focus::Chain => rng.below(4), Focus::Window => rng.below(3), _ => rng.below(6) / 5 };
    for _ in 0..skips { let t = (cur.0.saturating_add(rng.range(2, 3)), rt(rng)); links.push((cur, t)); cur = t; }
    if !rng.chance(1, 12) { let t = (cur.0.saturating_add(1), rt(rng)); links.push((cur, t)); m.slots.insert(cur.1, rng.corner()); cur = t; }
    if rng.chance(1, 15) { let t = (cur.0.saturating_add(1), rt(rng)); links.push((cur, t)); }
    // structural changes to the chain
    if f == Focus::Chain && rng.chance(1, 2) && !links.is_empty() {
        let n = links.len() as u64;
        match rng.below(12) {
            9..=11 => { // a link that is none of the chain's, at any place
                let older: Cp = (m.start.1.0.saturating_sub(rng.range(1, 3)), rt(rng));
                let l = *rng.pick(&links);
                let s = *rng.pick(&[older, m.start.1, m.start.0, l.0, l.1, (l.0.0, [0; 32])]);
                let far: Cp = (s.0.saturating_add(rng.range(1, 3)), rt(rng));
                let t = *rng.pick(&[(s.0.saturating_add(1), l.1.1), far, s, l.0, l.1, m.start.0, m.start.1, older]);
                links.insert(rng.below(n + 1) as usize, (s, t));
            }
            0 => { links.remove(rng.below(n) as usize); }
            1 => { let i = rng.below(n) as usize; let l = links[i]; links.insert(i, l); }
            2 => { let i = rng.below(n) as usize; links[i].0.1 = rt(rng); }
            3 => { let i = rng.below(n) as usize; links[i].0.0 = links[i].0.0.wrapping_sub(1); }
            4 => { let i = rng.below(n) as usize; links[i].1 = links[i].0; }
            5 => { rng.shuffle(&mut links); }
            6 => { let i = rng.below(n) as usize; links[i].1.0 = links[i].1.0.saturating_add(rng.below(3)); }
            7 => { let i = rng.below(n) as usize; links[i].0 = m.start.1; }
            _ => { let l = links[0]; links.push(l); }
        }
    }
    let epochs: BTreeSet<u64> = links.iter().map(|l| l.1.0).collect();
    let n = match f { Focus::Bits => rng.range(1, 60), Focus::Stake => rng.range(1, 16), _ => if rng.chance(1, 20) { 0 } else { rng.range(1, 24) } } as usize;
    let common = registry(rng, n);
    let hist = E::epochs_per_historical_vector() as u64;
    for e in epochs {
        let reg = if rng.bool() { common.clone() } else { registry(rng, n) };
        if !(f == Focus::Seed && rng.chance(1, 30)) { m.active.insert(e, reg); }
        // the right mix and decoys around it
        for d in 0..5u64 {
            let i = e.wrapping_add(hist).wrapping_sub(m.spec.min_seed_lookahead.as_u64()).wrapping_add(1).wrapping_sub(d) % hist;
            if d == 2 && { let k = if f == Focus::Seed { 8 } else { 60 }; rng.chance(1, k) } { continue; }
            m.mixes.insert((e, i as u32), if m.broken & 4 != 0 { [0; 32] } else { rng.chunk() });
        }
    }
    let mut atts = vec![];
    for (s, t) in &links {
        let Some(active) = m.active.get(&t.0) else { continue };
        let near = f == Focus::Stake || rng.chance(1, 5);
        let who = attesters(rng, &cfg, active, near);
        let mut a = attest(rng, &m, *s, *t, &who);
        if rng.bool() { rng.shuffle(&mut a); }
        atts.extend(a);
    }
    m.atts = atts;
    if rng.chance(1, 6) && !m.slots.is_empty() { m.slots.insert(cur.1, rng.corner()); m.slots.insert(m.start.1.1, rng.corner()); }
    if rng.chance(1, 40) { m.slots.clear(); }
    tamper(rng, &mut m, f);
    (cfg, m)
}
/// Change attestations; the oracle decides what that means.
fn tamper<E: EthSpec>(rng: &mut Rng, m: &mut Mem<E>, f: Focus) {
    if m.atts.is_empty() { return; }
    let p = match f { Focus::Signature | Focus::Bits => 2, _ => 12 };
    if !rng.chance(1, p) { return; }
    let n = m.atts.len();
    let at = rng.below(n as u64) as usize;
    let epoch = m.atts[at].data().target.epoch.as_u64();
    let active = m.active.get(&epoch).cloned().unwrap_or_default();
    let resign = rng.bool();
    let kind = if f == Focus::Bits { 20 + rng.below(10) } else { rng.below(30) };
    let other = m.atts[rng.below(n as u64) as usize].clone();
    let (gvr, spec) = (m.gvr, m.spec.clone());
    let Attestation::Electra(a) = &mut m.atts[at] else { return };
    let signers: Vec<PublicKey> = a.signature.shares.iter().map(|s| s.1.clone()).collect();
    let sign = |a: &mut AttestationElectra<E>, root: Chunk, keys: &[PublicKey]| { let mut s = AggregateSignature::default(); for k in keys { s.sign(root.into(), k); } a.signature = s; };
    match kind {
        0 => { a.signature = AggregateSignature::infinity(); }
        1 => { let i = rng.below(signers.len() as u64) as usize; if !signers.is_empty() { a.signature.shares.remove(i); } }
        2 => { let r = signing_root(&spec, &gvr, &a.data); a.signature.sign(r.into(), &key(rng.below(40))); }
        3 => { a.data.beacon_block_root = rng.chunk().into(); if resign { let r = signing_root(&spec, &gvr, &a.data); sign(a, r, &signers); } }
        4 => { a.data.slot = Slot::new(a.data.slot.as_u64().wrapping_add(1)); if resign { let r = signing_root(&spec, &gvr, &a.data); sign(a, r, &signers); } }
        5 => { a.data.slot = Slot::new(a.data.slot.as_u64().wrapping_sub(E::slots_per_epoch())); if resign { let r = signing_root(&spec, &gvr, &a.data); sign(a, r, &signers); } }
        6 => { a.data.slot = Slot::new(a.data.slot.as_u64().wrapping_add(E::slots_per_epoch())); if resign { let r = signing_root(&spec, &gvr, &a.data); sign(a, r, &signers); } }
        7 => { a.data.index = rng.range(1, 3); if resign { let r = signing_root(&spec, &gvr, &a.data); sign(a, r, &signers); } }
        8 => { let g = rng.chunk(); let r = signing_root(&spec, &g, &a.data); sign(a, r, &signers); }
        9 => { // another fork's domain
            let mut s2 = spec.clone();
            let k = s2.forks.len();
            s2.forks[rng.below(k as u64) as usize].2 = Epoch::new(if rng.bool() { 0 } else { u64::MAX });
            for i in 1..k { s2.forks[i].2 = s2.forks[i].2.max(s2.forks[i - 1].2); }
            let r = signing_root(&s2, &gvr, &a.data); sign(a, r, &signers);
        }
        10 => { // signed with the version of the attestation's own neighbouring epoch
            let mut d = a.data.clone();
            d.target.epoch = Epoch::new(d.target.epoch.as_u64().wrapping_sub(1));
            let r = signing_root(&spec, &gvr, &d); sign(a, r, &signers);
        }
        11 => { let mut d = a.data.clone(); d.source.epoch = Epoch::new(d.source.epoch.as_u64().wrapping_add(1)); let r = signing_root(&spec, &gvr, &d); sign(a, r, &signers); }
        12 => { // object root without a domain / wrong domain type
            let r = rng.chunk(); sign(a, r, &signers);
        }
        13 => { if !signers.is_empty() { let mut k = signers.clone(); k[0] = key(1000 + rng.below(5)); let r = signing_root(&spec, &gvr, &a.data); sign(a, r, &k); } }
        14 => { if !signers.is_empty() { let mut k = signers.clone(); k.push(signers[0].clone()); let r = signing_root(&spec, &gvr, &a.data); sign(a, r, &k); } }
        15 => { if let Attestation::Electra(o) = &other { a.signature = o.signature.clone(); } }
        16 => { // fewer attesters but the full signature, or the other way round
            if let Some(i) = a.aggregation_bits.0.iter().position(|b| *b) { a.aggregation_bits.0[i] = false; }
        }
        17 => { if let Some(i) = a.aggregation_bits.0.iter().position(|b| !*b) { a.aggregation_bits.0[i] = true; } }
        18 => { let b = Attestation::Base(AttestationBase { aggregation_bits: a.aggregation_bits.clone(), data: a.data.clone(), signature: a.signature.clone(), _p: std::marker::PhantomData }); m.atts[at] = b; }
        19 => { let x = m.atts[at].clone(); m.atts.insert(rng.below(n as u64 + 1) as usize, x); }
        20 => { a.aggregation_bits.0.push(rng.bool()); }
        21 => { a.aggregation_bits.0.pop(); }
        22 => { a.aggregation_bits.0.extend(std::iter::repeat_n(false, 1 + rng.below(9) as usize)); }
        23 => { let i = rng.below(64) as usize; a.committee_bits.0[i] = !a.committee_bits.0[i]; }
        24 => { a.committee_bits.0 = vec![false; 64]; a.aggregation_bits.0.clear(); if resign { a.signature = AggregateSignature::infinity(); } }
        25 => { a.committee_bits.0 = vec![false; 64]; }
        26 => { a.aggregation_bits.0.iter_mut().for_each(|b| *b = false); if resign { a.signature = AggregateSignature::infinity(); } }
        _ => { // change which bits are set, and sign as the oracle says (so only the bits matter)
            let idx: Vec<usize> = active.keys().copied().collect();
            let mut bits = a.aggregation_bits.0.clone();
            let mut cb = a.committee_bits.0.clone();
            if kind == 27 { // add a committee whose members attest or not
                let i = rng.below(6) as usize; cb[i] = true;
            }
            if kind == 28 && !bits.is_empty() { let i = rng.below(bits.len() as u64) as usize; bits[i] = !bits[i]; }
            let (slot, ps) = (a.data.slot.as_u64() % E::slots_per_epoch(), oracle_per_slot::<E>(&spec, idx.len()));
            let data = a.data.clone();
            let Some(seed) = oracle_seed(&*m, epoch, 1) else { return };
            let Some(com) = ps.and_then(|ps| oracle_committees(&idx, &seed, spec.shuffle_round_count, ps, E::slots_per_epoch())) else { return };
            let len: usize = cb.iter().enumerate().filter(|x| *x.1 && x.0 < com.per_slot).map(|x| com.list[slot as usize * com.per_slot + x.0].len()).sum();
            bits.resize(len, rng.bool());
            let who = oracle_attesters(&com, slot, &cb, &bits).unwrap_or_default();
            let keys: Vec<PublicKey> = who.iter().map(|w| active[w].pubkey.clone()).collect();
            let r = signing_root(&spec, &gvr, &data);
            let Attestation::Electra(a) = &mut m.atts[at] else { return };
            a.aggregation_bits.0 = bits; a.committee_bits.0 = cb;
            sign(a, r, &keys);
        }
    }
}
pub fn show<E: EthSpec>(cfg: &Config, m: &Mem<E>) -> String {
    let atts: Vec<String> = m.atts.iter().take(6).map(|a| { let d = a.data(); let (c, b) = match a { Attestation::Electra(a) => (bits(&a.committee_bits.0), bits(&a.aggregation_bits.0)), _ => Default::default() };
        format!("slot {} idx {} {}->{} committees {} bits {}", d.slot.as_u64(), d.index, show_cp(&(d.source.epoch.as_u64(), d.source.root.0)), show_cp(&(d.target.epoch.as_u64(), d.target.root.0)), c.trim_end_matches('0'), b) }).collect();
    format!("start {} threshold {}/{} limit {} versions {}..{} balances {:?} attestations({}) {:?}", show_st(&m.start), cfg.justification_threshold_factor, cfg.justification_threshold_quotient, cfg.epoch_lookahead_limit, cfg.min_version, cfg.max_version,
        m.active.iter().map(|(e, a)| (*e, a.iter().map(|(i, v)| (*i, v.effective_balance, v.slashed)).collect::<Vec<_>>())).collect::<Vec<_>>(), m.atts.len(), atts)
}
fn run(rng: &mut Rng, f: Focus) -> Case {
    if rng.chance(1, 8) {
        let (c, m) = scenario::<beacon_types::MainnetEthSpec>(rng, f);
        compare(&c, &m, &m, || show(&c, &m))
    } else {
        let (c, m) = scenario::<beacon_types::MinimalEthSpec>(rng, f);
        compare(&c, &m, &m, || show(&c, &m))
    }
}
pub fn c08(rng: &mut Rng, case: u64) -> Case {
    if case == 0 {
        for c in [&z_core::DEFAULT_CONFIG, &z_core::SEPOLIA_CONFIG] {
            check!(c.justification_threshold_factor as u128 * 3 > c.justification_threshold_quotient as u128 * 2 && c.justification_threshold_quotient > 0, "shipped threshold {}/{} is not above two thirds", c.justification_threshold_factor, c.justification_threshold_quotient);
        }
    }
    run(rng, Focus::Stake)
}
pub fn c09(rng: &mut Rng, _: u64) -> Case { run(rng, Focus::Chain) }
pub fn c10(rng: &mut Rng, _: u64) -> Case { run(rng, Focus::Window) }
pub fn c11(rng: &mut Rng, _: u64) -> Case { run(rng, Focus::Signature) }

// --------------------------------------------------------------------------------------------- committees directly
#[cfg(feature = "hooks")]
mod direct {
    use super::*;
    use z_core::{get_attesting_indices, verif_hooks::shuffle_data, CommitteeCache};

    pub struct Setup<E: EthSpec> { pub spec: ChainSpec, pub ids: Vec<usize>, pub seed: Chunk, pub per_slot: usize, pub epoch: u64, pub cache: Option<CommitteeCache<E>>, pub com: Option<Committees> }
    pub fn setup<E: EthSpec>(rng: &mut Rng, big: bool) -> Result<Setup<E>, String> {
        let mut spec = small_spec(rng);
        if !big && rng.chance(1, 30) { spec.shuffle_round_count = 0; }
        let n = if big { (1 << 16) + rng.range(1, 500) } else if rng.chance(1, 20) { 0 } else if rng.chance(1, 10) { rng.range(200, 700) } else { rng.range(1, 80) } as usize;
        let mut ids: Vec<usize> = vec![];
        let mut i = rng.below(3) as usize;
        for _ in 0..n { ids.push(i); i += 1 + if rng.chance(1, 3) { rng.below(5) as usize } else { 0 }; }
        if rng.chance(1, 8) { rng.shuffle(&mut ids); }
        let seed = rng.chunk();
        let per_slot = if big { 4 } else { *rng.pick(&[0usize, 1, 1, 2, 3, 4, 7, 64]) };
        let epoch = match rng.below(5) { 0 => 0, 1 => u64::MAX / E::slots_per_epoch() - 1, _ => rng.below(1 << 40) };
        let com = oracle_committees(&ids, &seed, spec.shuffle_round_count, per_slot, E::slots_per_epoch());
        let r = guard(|| CommitteeCache::<E>::initialized(&spec, shuffle_data(seed.into(), ids.clone(), per_slot), Epoch::new(epoch)));
        let cache = match r { Ok(Ok(c)) => Some(c), _ => None };
        check!(cache.is_some() == com.is_some(), "initializing committees for {} validators, {per_slot} per slot, {} rounds: {:?}", ids.len(), spec.shuffle_round_count, cache.as_ref().map(|_| "ok"));
        Ok(Setup { spec, ids, seed, per_slot, epoch, cache, com })
    }
    pub fn c12<E: EthSpec>(rng: &mut Rng) -> Case {
        let s = setup::<E>(rng, false)?;
        let (Some(cache), Some(com)) = (&s.cache, &s.com) else { return Ok(String::new()) };
        let spe = E::slots_per_epoch();
        let off = rng.below(spe);
        let slot = s.epoch * spe + off;
        let mut cb = vec![false; 64];
        for (i, b) in cb.iter_mut().enumerate() { *b = i < s.per_slot && rng.bool(); }
        if rng.chance(1, 8) && s.per_slot < 64 { cb[rng.range(s.per_slot as u64, 63) as usize] = true; }
        let len: usize = cb.iter().enumerate().filter(|x| *x.1 && x.0 < com.per_slot).map(|x| com.list[off as usize * com.per_slot + x.0].len()).sum();
        let dens = rng.range(1, 4);
        let mut agg: Vec<bool> = (0..len).map(|_| rng.chance(dens, 4)).collect();
        // make every committee non-empty most of the time
        if rng.chance(4, 5) {
            let mut p = 0;
            for i in 0..com.per_slot { if cb[i] { let l = com.list[off as usize * com.per_slot + i].len(); if l > 0 && !agg[p..p + l].contains(&true) { let k = p + rng.below(l as u64) as usize; agg[k] = true; } p += l; } }
        }
        match rng.below(10) { 0 => agg.push(rng.bool()), 1 => { agg.pop(); } 2 => agg.extend([false; 8]), _ => {} }
        let slot = if rng.chance(1, 12) { let d = *rng.pick(&[spe, spe.wrapping_neg(), 1]); slot.wrapping_add(d) } else { slot };
        let want = if slot / spe == s.epoch { oracle_attesters(com, slot % spe, &cb, &agg) } else if cb.contains(&true) { None } else { oracle_attesters(com, slot % spe, &cb, &agg) };
        let data = AttestationData { slot: Slot::new(slot), ..Default::default() };
        let Attestation::Electra(a) = att::<E>(data, cb.clone(), agg.clone(), Default::default()) else { unreachable!() };
        let got = guard(|| get_attesting_indices(&a, cache));
        let what = format!("slot offset {off} of epoch {}, {} validators, {} committees per slot, committee bits {}, aggregation bits {}", s.epoch, s.ids.len(), s.per_slot, bits(&cb).trim_end_matches('0'), bits(&agg));
        match (&got, &want) {
            (Ok(Ok(g)), Some(w)) => { check!(g == w, "attesters {g:?} instead of {w:?}; {what}"); Ok(if w.is_empty() { "none" } else { "attesters" }.into()) }
            (Ok(Ok(g)), None) => Err(format!("attesters {g:?} from an attestation that must be rejected; {what}")),
            (g, Some(w)) => Err(format!("rejected ({g:?}) but the attesters are {w:?}; {what}")),
            _ => Ok("rejected".into()),
        }
    }
    pub fn c13<E: EthSpec>(rng: &mut Rng, big: bool) -> Case {
        let s = setup::<E>(rng, big)?;
        let (Some(c), Some(o)) = (&s.cache, &s.com) else { return Ok("refused".into()) };
        let spe = E::slots_per_epoch();
        let what = format!("{} validators, seed {}, {} rounds, {} committees per slot, epoch {}", s.ids.len(), hex(&s.seed[..4]), s.spec.shuffle_round_count, s.per_slot, s.epoch);
        let few = |v: &[usize]| v.iter().copied().take(700).collect::<Vec<_>>();
        check!(c.shuffling() == o.shuffled, "shuffling {:?} instead of {:?}; {what}", few(c.shuffling()), few(&o.shuffled));
        check!(c.active_validator_count() == s.ids.len() && c.get_committee_count_per_slot() == s.per_slot && c.epoch_committee_count() == o.list.len(), "counts {} {} {}; {what}", c.active_validator_count(), c.get_committee_count_per_slot(), c.epoch_committee_count());
        check!(c.is_initialized_at(Epoch::new(s.epoch)) && !c.is_initialized_at(Epoch::new(s.epoch + 1)), "initialized epoch; {what}");
        for slot in 0..spe {
            let sl = Slot::new(s.epoch * spe + slot);
            let all = guard(|| c.get_beacon_committees_at_slot(sl).map(|v| v.into_iter().map(|x| x.to_vec()).collect::<Vec<_>>()));
            check!(matches!(&all, Ok(Ok(v)) if v[..] == o.list[slot as usize * s.per_slot..(slot as usize + 1) * s.per_slot]), "committees at slot offset {slot}: {all:?}; {what}");
            for i in 0..s.per_slot {
                let g = guard(|| c.get_beacon_committee(sl, i).map(|x| x.to_vec()));
                let w = &o.list[slot as usize * s.per_slot + i];
                check!(matches!(&g, Ok(Ok(v)) if v == w), "committee {i} at slot offset {slot}: {g:?} instead of {w:?}; {what}");
            }
        }
        for (slot, i) in [(s.epoch * spe, s.per_slot), (s.epoch * spe, usize::MAX), (s.epoch * spe, s.per_slot + rng.below(100) as usize), ((s.epoch + 1) * spe, 0), ((s.epoch * spe).wrapping_sub(1), 0), (rng.u64(), 0)] {
            if slot / spe == s.epoch && i < s.per_slot { continue; }
            let g = guard(|| c.get_beacon_committee(Slot::new(slot), i).map(|x| x.to_vec()));
            check!(!matches!(g, Ok(Ok(_))), "committee {i} of slot {slot} handed out: {g:?}; {what}");
        }
        let max = *s.ids.iter().max().unwrap();
        let positions: std::collections::HashMap<usize, usize> = o.shuffled.iter().enumerate().map(|(i, v)| (*v, i)).collect();
        for v in 0..max + 6 {
            let w = positions.get(&v).copied();
            let g = guard(|| c.shuffled_position(v));
            check!(g == Ok(w), "position of validator {v}: {g:?} instead of {w:?}; {what}");
        }
        let e = CommitteeCache::<E>::default();
        check!(!matches!(guard(|| e.get_beacon_committee(Slot::new(0), 0).map(|x| x.len())), Ok(Ok(_))) && e.shuffling().is_empty() && e.active_validator_count() == 0, "an uninitialized cache answers");
        Ok("committees".into())
    }
}
pub fn c12(rng: &mut Rng, case: u64) -> Case {
    #[cfg(feature = "hooks")]
    if case % 3 != 0 { return if case % 5 == 0 { direct::c12::<beacon_types::MainnetEthSpec>(rng) } else { direct::c12::<beacon_types::MinimalEthSpec>(rng) }; }
    let _ = case;
    run(rng, Focus::Bits)
}
pub fn c13(rng: &mut Rng, case: u64) -> Case {
    #[cfg(feature = "hooks")]
    if case % 4 != 0 { return if case % 5 == 0 { direct::c13::<beacon_types::MainnetEthSpec>(rng, false) } else { direct::c13::<beacon_types::MinimalEthSpec>(rng, matches!(case, 1 | 2)) }; }
    let _ = case;
    run(rng, Focus::Bits)
}
fn seed<E: EthSpec>(rng: &mut Rng) -> Case {
    let (_, mut m) = scenario::<E>(rng, Focus::Seed);
    m.broken = 0;
    m.spec.min_seed_lookahead = Epoch::new(match rng.below(4) { 0 => rng.corner(), 1 => rng.below(4), _ => 1 });
    let hist = E::epochs_per_historical_vector() as u64;
    let epoch = match rng.below(5) { 0 => rng.below(4), 1 => rng.corner(), 2 => u64::MAX - hist - 2 + rng.below(5), 3 => hist * rng.below(5) + rng.below(3), _ => rng.below(1 << 30) };
    m.mixes.clear();
    for d in 0..6u64 {
        let i = (epoch.wrapping_add(hist).wrapping_sub(m.spec.min_seed_lookahead.as_u64()).wrapping_add(1).wrapping_sub(d) % hist) as u32;
        if d == 2 && rng.chance(1, 5) { continue; }
        m.mixes.insert((epoch, i), rng.chunk());
        m.mixes.insert((epoch.wrapping_sub(1), i), rng.chunk());
        m.mixes.insert((epoch.wrapping_add(1), i), rng.chunk());
    }
    let domain = rng.u64() as u32;
    let n = epoch.checked_add(hist).and_then(|x| x.checked_sub(m.spec.min_seed_lookahead.as_u64())).and_then(|x| x.checked_sub(1));
    let want = oracle_seed(&m, epoch, domain);
    let got = guard(|| m.get_seed(Epoch::new(epoch), B32::from(domain.to_le_bytes())));
    let what = format!("seed of epoch {epoch}, domain {domain:#x}, look-ahead {}, history {hist}", m.spec.min_seed_lookahead);
    match (&got, want) {
        (Ok(Ok(g)), Some(w)) => check!(g.0 == w, "{what}: {} instead of {}", hex(&g.0), hex(&w)),
        (Ok(Ok(g)), None) => return Err(format!("{what}: gave {} instead of refusing", hex(&g.0))),
        (Ok(Err(_)), None) => {}
        (Err(p), None) => check!(n.is_some(), "{what}: arithmetic overflow panicked: {p}"),
        (g, Some(_)) => return Err(format!("{what}: refused {g:?}")),
    }
    // a mix read for an explicit epoch
    let e2 = match rng.below(3) { 0 => epoch, 1 => epoch.wrapping_sub(rng.below(3)), _ => rng.corner() };
    let w2 = m.mixes.get(&(epoch, (e2 % hist) as u32)).copied();
    let g2 = guard(|| m.get_randao_mix(Epoch::new(epoch), Epoch::new(e2)));
    match (&g2, w2) {
        (Ok(Ok(g)), Some(w)) if g.0 == w => {}
        (Ok(Ok(g)), _) => return Err(format!("mix of epoch {e2} in the state of {epoch}: {} instead of {w2:?}", hex(&g.0))),
        (_, Some(_)) => return Err(format!("mix of epoch {e2} in the state of {epoch}: refused {g2:?}")),
        _ => {}
    }
    Ok(if want.is_some() { "seed" } else { "refused" }.into())
}
pub fn c14(rng: &mut Rng, case: u64) -> Case {
    match case % 4 { 0 => run(rng, Focus::Seed), 1 => seed::<beacon_types::MainnetEthSpec>(rng), _ => seed::<beacon_types::MinimalEthSpec>(rng) }
}
